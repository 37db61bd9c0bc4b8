------------------------------- MODULE MCDisk -------------------------------
(* The traversal algorithms, step by step, from every origin of a set:       *)
(*  spiral  the fast disk: rings walked side by side with a heading, giving  *)
(*          up at the first pentagon                                         *)
(*  ring    the fast ring: straight out, then around, giving up at a         *)
(*          pentagon, or when it does not close                              *)
(*  search  the fallback: depth-first with improvement of distances          *)
(* against balls computed breadth-first.                                     *)
EXTENDS H3Disk
CONSTANTS R, K, Algs, Everywhere
VARIABLES alg, from, kk, at, rot, ring, side, pos, acc, stack, res
vars == <<alg, from, kk, at, rot, ring, side, pos, acc, stack, res>>

AllAt(n) == UNION {Descendants([bc |-> b, ds |-> <<>>], n) : b \in BaseCells}
NearPents(n) == UNION {Ball([bc |-> b, ds |-> Zeros(n)], 2) : b \in {4, 14, 38}}
Origins == IF Everywhere THEN AllAt(R) ELSE NearPents(R)

Init == /\ alg \in Algs /\ from \in Origins /\ kk \in 0..K
        /\ at = from /\ rot = 0 /\ ring = 1 /\ side = 1 /\ pos = 0
        /\ acc = {<<from, 0>>}
        /\ stack = IF alg = "search" THEN << <<from, 0, 0>> >> ELSE <<>>
        /\ res = "running"

Stop(r) == res' = r /\ UNCHANGED <<alg, from, kk, at, rot, ring, side, pos, acc, stack>>

\* -- spiral ---------------------------------------------------------------
SpiralRefuse == alg = "spiral" /\ res = "running" /\ IsPent(at) /\ Stop("pentagon")
SpiralDone == alg = "spiral" /\ res = "running" /\ ~IsPent(at) /\ ring > kk /\ Stop("ok")
SpiralStep ==
  /\ alg = "spiral" /\ res = "running" /\ ~IsPent(at) /\ ring <= kk
  /\ LET out == Step(at, rot, NextRing)
         start == IF side = 1 /\ pos = 0 THEN out ELSE [st |-> "ok", c |-> at, n |-> rot]
     IN IF IsPent(start.c) THEN Stop("pentagon")
        ELSE LET s == Step(start.c, start.n, Sides[side])
             IN IF s.st # "ok" THEN Stop("pentagon")
                ELSE /\ at' = s.c /\ rot' = s.n /\ acc' = acc \cup {<<s.c, ring>>}
                     /\ pos' = (IF pos + 1 = ring THEN 0 ELSE pos + 1)
                     /\ side' = (IF pos + 1 = ring THEN (side % 6) + 1 ELSE side)
                     /\ ring' = (IF pos + 1 = ring /\ side = 6 THEN ring + 1 ELSE ring)
                     /\ UNCHANGED <<alg, from, kk, stack, res>>

\* -- ring (ring counts the steps out, acc only the ring's cells) -------------
RingOut ==
  /\ alg = "ring" /\ res = "running" /\ kk > 0 /\ ring <= kk
  /\ IF kk >= Spacing(R) \/ IsPent(at) THEN Stop("pentagon")
     ELSE LET s == Step(at, rot, NextRing)
          IN IF s.st # "ok" \/ IsPent(s.c) THEN Stop("pentagon")
             ELSE /\ at' = s.c /\ rot' = s.n /\ ring' = ring + 1
                  /\ acc' = (IF ring = kk THEN {<<s.c, kk>>} ELSE acc)
                  /\ stack' = (IF ring = kk THEN <<s.c>> ELSE stack)
                  /\ UNCHANGED <<alg, from, kk, side, pos, res>>
RingAround ==
  /\ alg = "ring" /\ res = "running" /\ kk > 0 /\ ring > kk /\ side <= 6
  /\ LET s == Step(at, rot, Sides[side])
         final == side = 6 /\ pos + 1 = kk
     IN IF s.st # "ok" \/ (~final /\ IsPent(s.c)) THEN Stop("pentagon")
        ELSE IF final THEN Stop(IF s.c = stack[1] THEN "ok" ELSE "pentagon")
        ELSE /\ at' = s.c /\ rot' = s.n /\ acc' = acc \cup {<<s.c, kk>>}
             /\ pos' = (IF pos + 1 = kk THEN 0 ELSE pos + 1)
             /\ side' = (IF pos + 1 = kk THEN side + 1 ELSE side)
             /\ UNCHANGED <<alg, from, kk, ring, stack, res>>
RingZero == alg = "ring" /\ res = "running" /\ kk = 0 /\ Stop("ok")

\* -- search: stack frames <<cell, distance, directions tried>> ---------------
DistIn(c) == LET S == {p \in acc : p[1] = c} IN IF S = {} THEN 1000 ELSE (CHOOSE p \in S : TRUE)[2]
SearchStep ==
  /\ alg = "search" /\ res = "running" /\ stack # <<>>
  /\ LET f == stack[Len(stack)]
         below == SubSeq(stack, 1, Len(stack) - 1)
     IN IF f[2] >= kk \/ f[3] = 6 THEN stack' = below /\ UNCHANGED acc
        ELSE LET s == Move(f[1], Sides[f[3] + 1])
                 again == Append(below, << f[1], f[2], f[3] + 1 >>)
             IN IF s.st # "ok" \/ DistIn(s.c) <= f[2] + 1 THEN stack' = again /\ UNCHANGED acc
                ELSE /\ stack' = Append(again, << s.c, f[2] + 1, 0 >>)
                     /\ acc' = {p \in acc : p[1] # s.c} \cup {<< s.c, f[2] + 1 >>}
  /\ UNCHANGED <<alg, from, kk, at, rot, ring, side, pos, res>>
SearchDone == alg = "search" /\ res = "running" /\ stack = <<>> /\ Stop("ok")

Next == SpiralRefuse \/ SpiralDone \/ SpiralStep \/ RingOut \/ RingAround \/ RingZero \/ SearchStep \/ SearchDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expect == IF alg = "ring" THEN {p \in DistPairs(from, kk) : p[2] = kk} ELSE DistPairs(from, kk)
MayRefuse == alg \in {"spiral", "ring"} /\ PentWithin(from, kk) /\ ~(alg = "ring" /\ kk = 0)
Right == /\ res = "ok" => acc = Expect /\ ~MayRefuse
         /\ res = "pentagon" => MayRefuse
Bounded == res = "ok" /\ alg # "ring" =>
             /\ ~NLess(DiskBound(NumOf(kk)), NumOf(Cardinality(acc)))
             /\ ~PentWithin(from, kk) => DiskBound(NumOf(kk)) = NumOf(Cardinality(acc))
\* the closed form of the distance to the nearest pentagon
Nearest == res # "running" => (PentWithin(from, kk) = (PentDist(from) <= kk))
Ends == <>(res # "running")
=============================================================================
