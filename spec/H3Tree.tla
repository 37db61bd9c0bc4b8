------------------------------- MODULE H3Tree -------------------------------
(* The hierarchy: children, their number, their order, and the iterator.     *)
EXTENDS H3Index, H3Num

Parent(c) == [c EXCEPT !.ds = SubSeq(c.ds, 1, Len(c.ds) - 1)]
AncestorAt(c, r) == [c EXCEPT !.ds = SubSeq(c.ds, 1, r)]
Kids(c) == {e \in {[c EXCEPT !.ds = Append(c.ds, d)] : d \in Digits} : IsCell(e)}
RECURSIVE Descendants(_, _)
Descendants(c, n) == IF n = 0 THEN {c} ELSE UNION {Descendants(e, n - 1) : e \in Kids(c)}
IsAncestor(a, c) == Res(a) <= Res(c) /\ AncestorAt(c, Res(a)) = a

\* number of descendants n levels down: 7^n; for a pentagon 1 + 5*(7^n-1)/6,
\* in base 7 the digits 55...56.
CountHex(n) == NPow7(n)
CountPent(n) == IF n = 0 THEN <<1>> ELSE [i \in 1..(n - 1) |-> 5] \o <<6>>
Count(c, n) == IF IsPent(c) THEN CountPent(n) ELSE CountHex(n)

\* the order of descendants: by digits
RECURSIVE UnrankDigits(_, _, _)
UnrankDigits(pos, pent, n) ==       \* the n digits below, pos < count
  IF n = 0 THEN <<>>
  ELSE IF ~pent THEN Pad(pos, n)
  ELSE IF NLess(pos, CountPent(n - 1)) THEN <<0>> \o UnrankDigits(pos, TRUE, n - 1)
  ELSE LET rest == Pad(NSub(pos, CountPent(n - 1)), n)
       IN << rest[1] + 2 >> \o SubSeq(rest, 2, n)
ChildAt(c, n, pos) == [c EXCEPT !.ds = c.ds \o UnrankDigits(pos, IsPent(c), n)]

RECURSIVE RankDigits(_, _, _)
RankDigits(ds, pent, n) ==
  IF n = 0 THEN <<>>
  ELSE IF ~pent THEN Strip(ds)
  ELSE IF ds[1] = 0 THEN RankDigits(SubSeq(ds, 2, n), TRUE, n - 1)
  ELSE NAdd(CountPent(n - 1), Strip(<< ds[1] - 2 >> \o SubSeq(ds, 2, n)))
RankOf(a, c) == RankDigits(SubSeq(c.ds, Res(a) + 1, Res(c)), IsPent(a), Res(c) - Res(a))

\* The iterator: a counter of the digits below the parent.
FirstChild(c, n) == [c EXCEPT !.ds = c.ds \o Zeros(n)]
\* adding n at place i of digits that run to 7, with carries (not beyond the first place)
RECURSIVE Tally(_, _, _)
Tally(ds, i, n) == IF n = 0 THEN ds ELSE Tally([ds EXCEPT ![i] = (@ + n) % 8], i - 1, (ds[i] + n) \div 8)
\* the next digit string, or <<>> when it was the last
RECURSIVE Bump(_, _)
Bump(ds, i) == IF i = 0 THEN <<>>
               ELSE IF ds[i] = 6 THEN Bump([ds EXCEPT ![i] = 0], i - 1)
               ELSE [ds EXCEPT ![i] = @ + 1]
HasNext(a, c) == \E i \in (Res(a) + 1)..Res(c) : c.ds[i] # 6
NextChild(a, c) ==               \* HasNext(a, c)
  LET n == Res(c) - Res(a)
      low == Bump(SubSeq(c.ds, Res(a) + 1, Res(c)), n)
      d == [c EXCEPT !.ds = SubSeq(c.ds, 1, Res(a)) \o low]
  IN IF IsPent(a) /\ Lead(low) = KDIR
     THEN [d EXCEPT !.ds = [i \in 1..Len(d.ds) |-> IF i > Res(a) /\ d.ds[i] = 1 /\ (\A j \in (Res(a)+1)..(i-1) : d.ds[j] = 0) THEN 2 ELSE d.ds[i]]]
     ELSE d
RECURSIVE ChildrenFrom(_, _)
ChildrenFrom(a, c) == IF HasNext(a, c) THEN <<c>> \o ChildrenFrom(a, NextChild(a, c)) ELSE <<c>>
ChildrenSeq(a, n) == ChildrenFrom(a, FirstChild(a, n))
=============================================================================
