------------------------------- MODULE MCWalk -------------------------------
(* A walker who goes out through hexagons, naming directions in the frame it *)
(* started with, and comes back by naming the opposites in reverse order.    *)
EXTENDS H3Disk
CONSTANTS R, L, Starts
VARIABLES start, at, turns, way, home
vars == << start, at, turns, way, home >>

AllAt(r) == UNION {Descendants([bc |-> b, ds |-> <<>>], r) : b \in BaseCells}
NearPents(r) == UNION {Ball([bc |-> b, ds |-> Zeros(r)], 3) : b \in {4, 14, 38, 117}}
Set == {c \in (IF Starts = "all" THEN AllAt(R) ELSE NearPents(R)) : ~IsPent(c)}

Init == /\ start \in {<<c, m>> : c \in Set, m \in {0, 4}}
        /\ at = start[1] /\ turns = start[2] /\ way = <<>> /\ home = FALSE
Out == /\ ~home /\ Len(way) < L
       /\ \E d \in 1..6 :
            LET s == Step(at, turns, d)
            IN /\ s.st = "ok" /\ ~IsPent(s.c)
               /\ at' = s.c /\ turns' = s.n /\ way' = Append(way, d)
       /\ UNCHANGED << start, home >>
Turn == ~home /\ home' = TRUE /\ UNCHANGED << start, at, turns, way >>
Back == /\ home /\ way # <<>>
        /\ LET s == Step(at, turns, Opposite(way[Len(way)]))
           IN /\ at' = s.c /\ turns' = s.n
              /\ way' = SubSeq(way, 1, Len(way) - 1)
        /\ UNCHANGED << start, home >>
Next == Out \/ Turn \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Turn \/ Back)

OnCells == IsCell(at) /\ ~IsPent(at) /\ turns \in 0..5
Returns == home /\ way = <<>> => << at, turns >> = start
Gets == <>(home /\ way = <<>>)
=============================================================================
