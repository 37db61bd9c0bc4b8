------------------------------- MODULE MCTurn -------------------------------
(* A cell turned about its base cell again and again.                        *)
EXTENDS H3Turn
CONSTANTS R, Bases
VARIABLES first, cell, sense, count
vars == << first, cell, sense, count >>
Order == IF IsPentBase(cell.bc) THEN 5 ELSE 6
Turned(c, n) == IF IsPentBase(c.bc) THEN TurnPent(c, n) ELSE TurnHex(c, n)
Init == /\ \E b \in Bases, r \in 0..R : first \in Descendants([bc |-> b, ds |-> <<>>], r)
        /\ cell = first /\ sense \in {1, 5} /\ count = 0
Next == /\ count < Order
        /\ cell' = Turned(cell, sense) /\ count' = count + 1
        /\ UNCHANGED << first, sense >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ASSUME PentLookups
Legal == IsCell(cell)
Round == count = Order => cell = first
Sooner == count \in 1..(Order - 1) => (cell = first <=> Lead(first.ds) = 0)
Undone == Turned(Turned(cell, sense), 6 - sense) = cell
\* it is a turn of the surface, and so keeps neighbours
OnSurface == LET s == ScaleOf(Res(cell))
                 x == IF IsPentBase(cell.bc) THEN TurnedPent(cell, sense) ELSE TurnedHex(cell, sense)
             IN CanonPoint(Turned(cell, sense)) = Canon(x, s)
Rigid == \A e \in Neighbors(cell) : e.bc = cell.bc => Turned(e, sense) \in Neighbors(Turned(cell, sense))
Ends == <>(count = Order)
=============================================================================
