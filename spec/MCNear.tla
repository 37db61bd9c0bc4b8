------------------------------- MODULE MCNear -------------------------------
(* Waves from all pentagons of a resolution at once: the closed form of the  *)
(* distance to the nearest pentagon is the number of the wave; pentagons are *)
(* Spacing apart, and the waves reach every cell.                            *)
EXTENDS H3Disk
CONSTANTS MaxRes
VARIABLES rr, wave, behind, ahead, reached
vars == << rr, wave, behind, ahead, reached >>
Pents(r) == {[bc |-> b, ds |-> Zeros(r)] : b \in {b \in BaseCells : IsPent([bc |-> b, ds |-> <<>>])}}
Init == rr \in 0..MaxRes /\ wave = 0 /\ behind = {} /\ ahead = Pents(rr) /\ reached = 12
Next == /\ ahead # {}
        /\ LET new == (UNION {Neighbors(c) : c \in ahead}) \ (behind \cup ahead)
           IN ahead' = new /\ behind' = ahead /\ reached' = reached + Cardinality(new)
        /\ wave' = wave + 1 /\ UNCHANGED rr
Spec == Init /\ [][Next]_vars
InWave == \A c \in ahead : PentDist(c) = wave
Census == ahead = {} => reached = 2 + 120 * (7 ^ rr)
=============================================================================
