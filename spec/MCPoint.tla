------------------------------- MODULE MCPoint -------------------------------
(* Regions and hierarchy: the centres of the cells of resolution R, as       *)
(* points, against the regions of the cells one and two resolutions coarser. *)
EXTENDS H3Point
CONSTANT R
VARIABLE cell
Init == cell = [bc |-> 0, ds |-> Zeros(R)]
Next == \E d \in Dirs(cell) : cell' = Move(cell, d).c
Spec == Init /\ [][Next]_cell

\* cells of resolution r around cell's ancestor that contain its centre,
\* with the region shrunk or grown by a margin
Holders(r, tol) == LET q == Coarse(cell, r)
                   IN { e \in Ball(AncestorAt(cell, r), 1) : Contains(e, q[1], q[2], q[3], tol) }
Nested == Holders(R - 1, -20) = {Parent(cell)}
Covered == R >= 2 => Holders(R - 2, 20) # {}
Disjoint == R >= 2 => Cardinality(Holders(R - 2, -20)) <= 1
CentreChild == cell.ds[R] = 0 => Coarse(cell, R - 1) = << PointOf(Parent(cell))[1], PointOf(Parent(cell))[2], <<0, 0>> >>
OwnCentre == LET y == PointOf(cell) IN IsCentre(cell, y[1], y[2], <<0, 0>>, 0)
Complete == TLCGet("distinct") = 2 + 120 * Pow7(R)
=============================================================================
