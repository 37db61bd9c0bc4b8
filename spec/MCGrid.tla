------------------------------ MODULE MCGrid ------------------------------
EXTENDS H3Grid
CONSTANT R
VARIABLE cell
Init == cell = [bc |-> 0, ds |-> [i \in 1..R |-> 0]]
Next == \E d \in Dirs(cell) : Move(cell, d).st = "ok" /\ cell' = Move(cell, d).c
Spec == Init /\ [][Next]_cell
MovesOk == \A d \in Dirs(cell) : Move(cell, d).st = "ok"
Valid == IsCell(cell) /\ Res(cell) = R
Degree == Cardinality(Neighbors(cell)) = (IF IsPent(cell) THEN 5 ELSE 6)
Geometry == { CanonPoint(n) : n \in Neighbors(cell) } = AdjPoints(cell)
InsideP == Inside(PointOf(cell)[2], ScaleOf(R))
Symmetric == \A n \in Neighbors(cell) : cell \in Neighbors(n)
Complete == TLCGet("distinct") = 2 + 120 * Pow7(R)
==========================================================================
