------------------------------ MODULE MCAddress ------------------------------
(* Every cell of resolution R, reached by moves: its addresses name it, and  *)
(* the lattice points around it in the plane name the cells that are there.  *)
EXTENDS H3Address
CONSTANT R
VARIABLE cell
Init == cell = [bc |-> 0, ds |-> Zeros(R)]
Next == \E d \in Dirs(cell) : cell' = Move(cell, d).c
Spec == Init /\ [][Next]_cell

Named == \A a \in OnFace(cell) : CellNamed(a[1], a[2], R) = cell
NamedBeside == \A a \in Beside(cell) : NearFace(R, a[2]) => CellNamed(a[1], a[2], R) = cell
Own == \A a \in OnFace(cell) : IsAddress(cell, a[1], a[2])
Around == \A a \in OnFace(cell) : \A d \in 1..6 :
            LET n == CellNamed(a[1], Add(a[2], U[d + 1]), R)
            IN n # NoCell /\ NearFace(R, Add(a[2], U[d + 1])) => n \in Neighbors(cell)
\* each lattice point on a face or just beside it is the address of what it names
Everywhere == \A a \in OnFace(cell) : \A d \in 1..6 :
            LET q == Add(a[2], U[d + 1]) n == CellNamed(a[1], q, R)
            IN NearFace(R, q) => n # NoCell /\ IsAddress(n, a[1], q)
Complete == TLCGet("distinct") = 2 + 120 * Pow7(R)
=============================================================================
