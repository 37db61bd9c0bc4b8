------------------------------- MODULE H3Disk -------------------------------
(* Grid distance, disks and rings; and stepping with a heading.              *)
EXTENDS H3Tree

(***************************************************************************)
(* A walker: a cell and the number n of ccw turns from the directions it    *)
(* names to the directions of its cell's own frame.                         *)
(***************************************************************************)
Step(c, n, d) == LET m == Move(c, RotDigit(n, d))
                 IN [st |-> m.st, c |-> m.c, n |-> (n + m.turn) % 6]
Opposite(d) == RotDigit(3, d)

(***************************************************************************)
(* Balls, as breadth-first layers: Layers(c, k)[i+1] is the set of cells at *)
(* distance i.                                                              *)
(***************************************************************************)
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(done, prev, last, k) ==
  IF k = 0 THEN << last >>
  ELSE LET new == (UNION {Neighbors(c) : c \in last}) \ (prev \cup last)
       IN << last >> \o LayersFrom(done, last, new, k - 1)
Layers(c, k) == LayersFrom({}, {}, {c}, k)
Ball(c, k) == LET ls == Layers(c, k) IN UNION {ls[i] : i \in 1..Len(ls)}
Adjacent(c, e) == e \in Neighbors(c)
RECURSIVE PentFrom(_, _, _)
PentFrom(prev, last, k) ==
  \/ \E e \in last : IsPent(e)
  \/ /\ k > 0
     /\ PentFrom(last, (UNION {Neighbors(c) : c \in last}) \ (prev \cup last), k - 1)
PentWithin(c, k) == PentFrom({}, {c}, k)
\* cells with their distances
DistPairs(c, k) == LET ls == Layers(c, k)
                   IN UNION {{<<e, i - 1>> : e \in ls[i]} : i \in 1..Len(ls)}

\* 3k(k+1)+1, but never more than there are cells (k in base 7)
AllCells == NAdd(<<2>>, NMul(NumOf(120), NPow7(15)))
DiskBound(k) == LET n == NInc(NMul(NMul(<<3>>, k), NInc(k)))
                IN IF NLess(AllCells, n) THEN AllCells ELSE n

(***************************************************************************)
(* Pentagons of one resolution are this far apart; a ring as wide always    *)
(* has one inside.                                                          *)
(***************************************************************************)
HexDist(p) == LET a == p[1] b == p[2] abs(n) == IF n < 0 THEN -n ELSE n
              IN Max2(Max2(abs(a), abs(b)), abs(a - b))
RECURSIVE Scaled(_, _, _)
Scaled(r, R, p) == IF r > R THEN p ELSE Scaled(r + 1, R, ToFiner(r, p))
Spacing(R) == HexDist(Scaled(1, R, << -2, 2 >>))

\* A cell's nearest pentagons are the corners of the face its centre is on;
\* in the face's plane the distance is the plane's (checked by MCDisk).
InOwnAxes(r, p) == IF r % 2 = 1 THEN << (2 * p[1] + p[2]) \div 7, (3 * p[2] - p[1]) \div 7 >> ELSE p
PentDist(c) ==
  LET r == Res(c) s == ScaleOf(r) y == PointOf(c)[2]
      D == { HexDist(InOwnAxes(r, Sub(y, CornerPt(m, s)))) : m \in 1..3 }
  IN CHOOSE d \in D : \A e \in D : d <= e

(***************************************************************************)
(* The three traversals, as machines.                                       *)
(***************************************************************************)
\* sides of a ring in the order walked; a ring is entered by going in I from
\* the last cell of the ring before it
Sides == << JDIR, JKDIR, KDIR, IKDIR, IDIR, IJDIR >>
NextRing == IDIR
=============================================================================
