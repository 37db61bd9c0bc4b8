------------------------------ MODULE H3Trace ------------------------------
(* Checks recorded executions.  The recording is cut into parts, each read   *)
(* in order by its own reader, so that TLC's workers share the work.  A      *)
(* reader carries the specification's state of the two objects that have     *)
(* one: child iterators (several) and the walker.  An event that the specification  *)
(* does not allow is reported as REJECT with its line.                       *)
EXTENDS H3Clients, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.H3_TRACE)
Parts == JsonDeserialize(IOEnv.H3_PARTS)          \* << first, last >> each
VARIABLES part, line, walker, iter
vars == << part, line, walker, iter >>

Slots == 0..7
NoWalker == [w |-> Null, n |-> 0]
Init == /\ part \in 1..Len(Parts)
        /\ line = Parts[part][1]
        /\ walker = NoWalker
        /\ iter = [s \in Slots |-> NoIter]
Here == Trace[line]
More == line <= Parts[part][2]
Advance == line' = line + 1 /\ UNCHANGED part
Verdict(good) == IF good THEN TRUE ELSE PrintT(<<"REJECT", line>>)

Call == /\ More /\ Here.op \notin {"walk", "step", "go", "at", "len",
                              "iter", "next", "jump", "left", "last", "hint", "least", "rest"}
        /\ Verdict(Accepts(Here))
        /\ Advance /\ UNCHANGED << walker, iter >>

\* a walker is put down, and steps
WalkStart == /\ More /\ Here.op = "walk"
             /\ walker' = [w |-> Here.w, n |-> Here.n]
             /\ Advance /\ UNCHANGED iter
WalkStep ==
  /\ More /\ Here.op = "step"
  /\ LET c == CellOf(walker.w)
         s == Step(c, walker.n, Here.d)
     IN Verdict(/\ s.st = "ok"
                /\ Here.o = "ok" /\ Here.v = WordOf(s.c)
                /\ (IsPent(c) \/ IsPent(s.c) \/ Here.m = s.n))
  /\ walker' = (IF Here.o = "ok" THEN [w |-> Here.v, n |-> Here.m] ELSE NoWalker)
  /\ Advance /\ UNCHANGED iter

\* the walker goes on silently; meets a cell which the library listed (v) or
\* not; and a list of a ring or disk around its start has this many cells
WalkGo == /\ More /\ Here.op = "go"
          /\ LET s == Step(CellOf(walker.w), walker.n, Here.d)
             IN /\ Verdict(s.st = "ok" /\ ~IsPent(s.c))
                /\ walker' = [w |-> WordOf(s.c), n |-> s.n]
          /\ Advance /\ UNCHANGED iter
WalkAt == /\ More /\ Here.op = "at"
          /\ Verdict(Here.w = walker.w /\ Here.v = TRUE)
          /\ Advance /\ UNCHANGED << walker, iter >>
WalkLen == /\ More /\ Here.op = "len"
           /\ Verdict(Here.v = (IF Here.disk THEN 3 * Here.k * (Here.k + 1) + 1 ELSE 6 * Here.k))
           /\ Advance /\ UNCHANGED << walker, iter >>

\* an iterator is made, and asked: for the next child, for one further on, how
\* many are left, for the last one, the least one, all that are left (these four
\* use it up), and for an estimate
Mine == iter[Here.it]
Becomes(i) == iter' = [iter EXCEPT ![Here.it] = i]
IterNew == /\ More /\ Here.op = "iter"
           /\ Verdict(Here.o = "ok")
           /\ Becomes(NewIter(Here.w, Here.res))
           /\ Advance /\ UNCHANGED walker
IterAsk == /\ More
           /\ \/ /\ Here.op = "next"
                 /\ Verdict(SameAnswer(Here, NextAnswer(Mine)))
                 /\ Becomes(Advanced(Mine))
              \/ /\ Here.op = "jump"
                 /\ Verdict(SameAnswer(Here, JumpAnswer(Mine, Here.n)))
                 /\ Becomes(Advanced(Skipped(Mine, Here.n)))
              \/ /\ Here.op = "left"
                 /\ Verdict(SameAnswer(Here, LeftAnswer(Mine)))
                 /\ Becomes(NoIter)
              \/ /\ Here.op = "last"
                 /\ Verdict(SameAnswer(Here, LastAnswer(Mine)))
                 /\ Becomes(NoIter)
              \/ /\ Here.op = "least"
                 /\ Verdict(SameAnswer(Here, LeastAnswer(Mine)))
                 /\ Becomes(NoIter)
              \/ /\ Here.op = "rest"
                 /\ Verdict(SameAnswer(Here, RestAnswer(Mine)))
                 /\ Becomes(NoIter)
              \/ /\ Here.op = "hint"
                 /\ Verdict(Here.o = "ok" /\ HintOk(Mine, Here.lo, Here.hi))
                 /\ UNCHANGED iter
           /\ Advance /\ UNCHANGED walker

Next == Call \/ WalkStart \/ WalkStep \/ WalkGo \/ WalkAt \/ WalkLen \/ IterNew \/ IterAsk
Spec == Init /\ [][Next]_vars
AllRead == TLCGet("distinct") = Len(Trace) + Len(Parts)
=============================================================================
