------------------------------- MODULE MCEdge -------------------------------
(* States are directed edges; one leads on from its destination, or turns    *)
(* back.                                                                     *)
EXTENDS H3Edge
CONSTANT R
VARIABLE edge
Init == edge = EdgeWord([bc |-> 0, ds |-> Zeros(R)], 1)
Onward == \E d \in Dirs(EdgeDest(edge)) : edge' = EdgeWord(EdgeDest(edge), d)
Back == edge' = EdgeBetween(EdgeDest(edge), EdgeOrigin(edge))
Next == Onward \/ Back
Spec == Init /\ [][Next]_edge

Valid == IsEdgeWord(edge) /\ ~IsCellWord(edge) /\ IsWord(edge)
Codec == EdgeBetween(EdgeOrigin(edge), EdgeDest(edge)) = edge
Distinct == EdgeOrigin(edge) # EdgeDest(edge)
OneEach == LET c == EdgeOrigin(edge) IN
             /\ Cardinality(EdgesOf(c)) = Cardinality(Neighbors(c))
             /\ {EdgeDest(x) : x \in EdgesOf(c)} = Neighbors(c)
Headed == LET d == Reserved(edge)                      \* the heading law
              s == Step(EdgeOrigin(edge), 0, d)
              b == Step(s.c, s.n, Opposite(d))
          IN IsPent(EdgeOrigin(edge)) \/ IsPent(EdgeDest(edge)) \/
             (b.st = "ok" /\ b.c = EdgeOrigin(edge) /\ b.n = 0)
Complete == TLCGet("distinct") = 6 * (2 + 120 * Pow7(R)) - 12
=============================================================================
