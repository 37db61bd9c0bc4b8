------------------------------- MODULE H3Edge -------------------------------
(* Directed edges: the origin's word in edge mode, with the direction in the *)
(* reserved bits.                                                            *)
EXTENDS H3Disk

EdgeWord(c, d) == [WordOf(c) EXCEPT ![2] = EDGEMODE, ![3] = d]
OriginWord(w) == [w EXCEPT ![2] = CELLMODE, ![3] = 0]
IsEdgeWord(w) == /\ Mode(w) = EDGEMODE
                 /\ IsCellWord(OriginWord(w))
                 /\ Reserved(w) \in Dirs(CellOf(w))
EdgeOrigin(w) == CellOf(w)
EdgeDest(w) == Move(CellOf(w), Reserved(w)).c
EdgesOf(c) == {EdgeWord(c, d) : d \in Dirs(c)}
EdgeSlots(c) == [d \in 1..6 |-> IF d \in Dirs(c) THEN EdgeWord(c, d) ELSE Null]
\* the edge between two cells (adjacent ones)
EdgeBetween(c, e) == EdgeWord(c, CHOOSE d \in Dirs(c) : Move(c, d).c = e)
=============================================================================
