------------------------------- MODULE MCTree -------------------------------
(* The iterator machine, run from every kind of parent, against the set of   *)
(* descendants, the count and the rank.                                      *)
EXTENDS H3Tree
CONSTANTS Depth, Parents
\* a hexagon, a pentagon, their hexagonal and pentagonal descendants
ParentSet == { [bc |-> 0, ds |-> <<>>], [bc |-> 4, ds |-> <<>>], [bc |-> 14, ds |-> <<0, 0>>],
               [bc |-> 117, ds |-> <<0, 3>>], [bc |-> 38, ds |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>],
               [bc |-> 121, ds |-> <<6, 5, 4, 3, 2, 1, 0, 1, 2, 3, 4>>] }
VARIABLES top, at, pos, done
vars == <<top, at, pos, done>>
Init == /\ top \in Parents
        /\ \E n \in 0..Depth : Res(top) + n <= 15 /\ at = FirstChild(top, n)
        /\ pos = <<>>
        /\ done = FALSE
Yield == /\ ~done /\ HasNext(top, at)
         /\ at' = NextChild(top, at) /\ pos' = NInc(pos) /\ UNCHANGED <<top, done>>
Finish == /\ ~done /\ ~HasNext(top, at)
          /\ done' = TRUE /\ UNCHANGED <<top, at, pos>>
Next == Yield \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

N == Res(at) - Res(top)
Legal == IsCell(at) /\ IsAncestor(top, at)
Ranked == RankOf(top, at) = pos /\ ChildAt(top, N, pos) = at
Counted == done => NInc(pos) = Count(top, N)
Ascending == [][Yield => Before(WordOf(at), WordOf(at'))]_vars
Exact == (Len(pos) = 0 /\ ~done /\ N <= 2) =>
           /\ { ChildrenSeq(top, N)[i] : i \in 1..Len(ChildrenSeq(top, N)) } = Descendants(top, N)
           /\ NumOf(Cardinality(Descendants(top, N))) = Count(top, N)
\* the same as a counter of digits that run to 7: one is added in the finest
\* place; a 7 is passed on by adding one more; below a pentagon, the 1 that
\* would become the first digit is stepped over
RECURSIVE PassOn(_, _)
PassOn(ds, i) == IF i = 0 THEN ds
                 ELSE IF ds[i] = 7 THEN PassOn(Tally(ds, i, 1), i - 1)
                 ELSE IF IsPent(top) /\ ds[i] = 1 /\ (\A j \in (Res(top) + 1)..(i - 1) : ds[j] = 0) /\ i > Res(top)
                      /\ (\A j \in (i + 1)..Len(ds) : ds[j] = 0) THEN Tally(ds, i, 1)
                 ELSE ds
ByCounter == [][Yield => at'.ds = PassOn(Tally(at.ds, Res(at), 1), Res(at))]_vars
Ends == <>done
=============================================================================
