----------------------------- MODULE H3Clients -----------------------------
(* Clients of the library: they hold child iterators, several at a time, and *)
(* make calls in between.  An iterator's state is its own; nothing else has  *)
(* any.  Read by H3Trace (recorded histories), GenClients (histories made    *)
(* up here, for the code to follow) and MCClients.                           *)
EXTENDS H3Api

(***************************************************************************)
(* An iterator: the parent, the child it is at, whether it is through.      *)
(***************************************************************************)
NoIter == [par |-> <<>>, at |-> <<>>, done |-> TRUE]
NewIter(w, res) ==
  LET c == CellOf(w)
  IN IF HasChildrenAt(c, res) THEN [par |-> c, at |-> FirstChild(c, res - Res(c)), done |-> FALSE]
     ELSE NoIter
Advanced(i) == IF i.done \/ ~HasNext(i.par, i.at) THEN NoIter
               ELSE [i EXCEPT !.at = NextChild(i.par, i.at)]
Below(i) == Res(i.at) - Res(i.par)
\* how many children it has still to yield
Remaining(i) == IF i.done THEN <<>> ELSE NSub(Count(i.par, Below(i)), RankOf(i.par, i.at))
\* n of them skipped
Skipped(i, n) == IF NLess(n, Remaining(i))
                 THEN [i EXCEPT !.at = ChildAt(i.par, Below(i), NAdd(RankOf(i.par, i.at), n))]
                 ELSE NoIter
LastOf(i) == ChildAt(i.par, Below(i), NSub(Count(i.par, Below(i)), <<1>>))

Yields(i) == IF i.done THEN [o |-> "none"] ELSE [o |-> "some", v |-> WordOf(i.at)]
\* what an iterator answers
NextAnswer(i) == Yields(i)
JumpAnswer(i, n) == Yields(Skipped(i, n))               \* nth(n)
LastAnswer(i) == IF i.done THEN [o |-> "none"] ELSE [o |-> "some", v |-> WordOf(LastOf(i))]
LeftAnswer(i) == [o |-> "ok", v |-> Remaining(i)]       \* count()
LeastAnswer(i) == Yields(i)                             \* min(): they ascend
RestAnswer(i) == [o |-> "ok", v |-> IF i.done THEN <<>>   \* collect(), fold(), ...
                                    ELSE LET s == ChildrenFrom(i.par, i.at) IN [n \in 1..Len(s) |-> WordOf(s[n])]]
\* bounds of what is left, hi = <<-1>> for none
HintOk(i, lo, hi) == /\ ~NLess(Remaining(i), lo)
                     /\ hi = <<-1>> \/ ~NLess(hi, Remaining(i))
SameAnswer(ev, a) == ev.o = a.o /\ (a.o = "none" \/ ev.v = a.v)

(***************************************************************************)
(* What calls answer, where the specification leaves no choice.             *)
(***************************************************************************)
Oks(v) == [o |-> "ok", v |-> v]
Errs(e) == [o |-> "err", e |-> e]
SizeAnswer(w, res) == IF HasChildrenAt(CellOf(w), res) THEN Oks(Count(CellOf(w), res - WRes(w))) @@ [neg |-> FALSE]
                      ELSE Errs("ResDomain")
ChildPosAnswer(w, res, pos) ==
  IF res \notin 0..15 THEN Errs("ResDomain")
  ELSE IF res < WRes(w) THEN Errs("ResMismatch")
  ELSE IF NLess(pos, Count(CellOf(w), res - WRes(w))) THEN Oks(WordOf(ChildAt(CellOf(w), res - WRes(w), pos)))
  ELSE Errs("Domain")
ChildrenAnswer(w, res) ==
  IF HasChildrenAt(CellOf(w), res)
  THEN LET s == ChildrenSeq(CellOf(w), res - WRes(w)) IN Oks([i \in 1..Len(s) |-> WordOf(s[i])])
  ELSE Oks(<<>>)
DirToAnswer(w, z) ==
  LET c == CellOf(w) e == CellOf(z)
  IN IF Res(c) = Res(e) /\ e \in Neighbors(c) THEN Oks(CHOOSE d \in Dirs(c) : Move(c, d).c = e) ELSE Oks(7)
EdgeAnswer(w, z) ==
  LET c == CellOf(w) e == CellOf(z)
  IN IF Res(c) = Res(e) /\ e \in Neighbors(c) THEN Oks(EdgeBetween(c, e)) ELSE Errs("NotNeighbors")
=============================================================================
