------------------------------ MODULE H3Grid ------------------------------
(* The H3 grid as mathematics: a triangular lattice on the surface of an     *)
(* icosahedron, refined by aperture 7, with cells named by a base cell and a *)
(* sequence of digits.  A cell's meaning is a lattice point of the surface   *)
(* (PointOf); adjacency is unit distance between those points.  The second   *)
(* half derives from that geometry the digit arithmetic by which a neighbour *)
(* can be found without coordinates (Move), with the frame rotation it       *)
(* causes.  Nothing here is read off the implementation's tables.            *)
EXTENDS H3Ico, FiniteSets, TLC

(***************************************************************************)
(* The plane lattice.  Axial coordinates <<a, b>>: a along the i axis, b    *)
(* along the j axis, which is 120 degrees counter-clockwise of i; the k     *)
(* axis is <<-1, -1>>.                                                     *)
(***************************************************************************)
Digits == 0..6
U == << <<0, 0>>, <<-1, -1>>, <<0, 1>>, <<-1, 0>>, <<1, 0>>, <<0, -1>>, <<1, 1>> >>
CENTER == 0   KDIR == 1   JDIR == 2   JKDIR == 3   IDIR == 4   IKDIR == 5   IJDIR == 6

Add(p, q) == << p[1] + q[1], p[2] + q[2] >>
Sub(p, q) == << p[1] - q[1], p[2] - q[2] >>
Scale(n, p) == << n * p[1], n * p[2] >>
Rot(p) == << p[1] - p[2], p[1] >>                      \* 60 degrees ccw
RECURSIVE RotN(_, _)
RotN(n, p) == IF n = 0 THEN p ELSE RotN(n - 1, Rot(p))
Norm(p) == p[1] * p[1] - p[1] * p[2] + p[2] * p[2]

RECURSIVE Pow7(_)
Pow7(n) == IF n = 0 THEN 1 ELSE 7 * Pow7(n - 1)

\* The lattice of resolution r inside the one of r-1: a coarse point's
\* coordinates in the finer lattice.  Odd resolutions (Class III) turn one way,
\* even ones (Class II) turn back, so two steps scale by exactly 7.
ToFiner(r, p) == IF r % 2 = 1 THEN << 2 * p[1] + p[2], 3 * p[2] - p[1] >>
                              ELSE << 3 * p[1] - p[2], p[1] + 2 * p[2] >>

\* Every lattice is embedded in a Class II one, whose unit is 1/ScaleOf(r) of
\* the res 0 unit: the lattice of r itself when r is even, of r+1 when odd.
ScaleOf(r) == Pow7((r + 1) \div 2)
ToClassII(r, p) == IF r % 2 = 1 THEN ToFiner(r + 1, p) ELSE p

(***************************************************************************)
(* Digits turn with the lattice.                                           *)
(***************************************************************************)
DigitOf(p) == CHOOSE d \in Digits : U[d + 1] = p
RotDigitT == [x \in (0..5) \X Digits |-> DigitOf(RotN(x[1], U[x[2] + 1]))]
RotDigit(n, d) == RotDigitT[<<n % 6, d>>]
RotDigits(n, ds) == IF n % 6 = 0 THEN ds ELSE [i \in 1..Len(ds) |-> RotDigitT[<<n % 6, ds[i]>>]]

(***************************************************************************)
(* The surface.  Face f is the triangle with corners I = <<D,0>>,           *)
(* J = <<0,D>>, K = <<-D,-D>>, D = 2*scale, centred on the origin.          *)
(***************************************************************************)
EdgeForm(e, p) == CASE e = 1 -> p[1] + p[2]
                    [] e = 2 -> p[1] - 2 * p[2]
                    [] e = 3 -> p[2] - 2 * p[1]
Inside(p, s) == \A e \in 1..3 : EdgeForm(e, p) <= 2 * s
Beyond(p, s) == CHOOSE e \in 1..3 : EdgeForm(e, p) > 2 * s
Touches(p, s) == {e \in 1..3 : EdgeForm(e, p) = 2 * s}

FoldFace(f, e) == Gluing[f + 1][e][1]
FoldRot(f, e) == Gluing[f + 1][e][2]
FoldPt(f, e, p, s) == LET g == Gluing[f + 1][e]
                      IN Add(RotN(g[2], p), << s * g[3], s * g[4] >>)
Fold(f, e, p, s) == << FoldFace(f, e), FoldPt(f, e, p, s) >>

\* A point of face f's plane as a point of a face it really lies on.
Norm1(f, p, s) == IF Inside(p, s) THEN << f, p >> ELSE Fold(f, Beyond(p, s), p, s)

\* All names of a surface point: an edge point has two, a corner has five.
RECURSIVE RepClosure(_, _)
RepClosure(S, s) ==
  LET T == S \cup { Fold(x[1], e, x[2], s) : <<x, e>> \in {y \in S \X (1..3) : y[2] \in Touches(y[1][2], s)} }
  IN IF T = S THEN S ELSE RepClosure(T, s)
Reps(x, s) == IF Touches(x[2], s) = {} THEN {x} ELSE RepClosure({x}, s)
Canon(x, s) == LET R == Reps(x, s) IN CHOOSE y \in R : \A z \in R : y[1] <= z[1]

(***************************************************************************)
(* Base cells.                                                             *)
(***************************************************************************)
BaseCells == 0..121
HomeFace(b) == Homes[b + 1][1]
HomePt(b) == << Homes[b + 1][2], Homes[b + 1][3] >>
PentBases == {b \in BaseCells : Cardinality(Touches(HomePt(b), 1)) = 2}
IsPentBaseT == [b \in BaseCells |-> b \in PentBases]
IsPentBase(b) == IsPentBaseT[b]
BasePoint == [b \in BaseCells |-> Canon(<<HomeFace(b), HomePt(b)>>, 1)]
BaseAt == [x \in {BasePoint[b] : b \in BaseCells} |-> CHOOSE b \in BaseCells : BasePoint[b] = x]

(***************************************************************************)
(* Cells.                                                                  *)
(***************************************************************************)
Res(c) == Len(c.ds)
RECURSIVE LeadFrom(_, _)
LeadFrom(ds, i) == IF i > Len(ds) THEN 0 ELSE IF ds[i] # 0 THEN ds[i] ELSE LeadFrom(ds, i + 1)
Lead(ds) == LeadFrom(ds, 1)
IsCell(c) == /\ c.bc \in BaseCells
             /\ Len(c.ds) <= 15
             /\ \A i \in 1..Len(c.ds) : c.ds[i] \in Digits
             /\ IsPentBase(c.bc) => Lead(c.ds) # KDIR
IsPent(c) == IsPentBase(c.bc) /\ Lead(c.ds) = 0

(***************************************************************************)
(* The surface point of a cell.  Its digits lead from the base cell's       *)
(* centre through the plane of the home face.  Around a pentagon (always a  *)
(* corner I of its home face) the plane has 360 degrees but the surface     *)
(* only 300: the digits JK, J, IJ, I, IK stand for the five faces met going  *)
(* clockwise from the home face, so the plane is unrolled clockwise by as   *)
(* many faces as the leading digit says.                                    *)
(***************************************************************************)
RECURSIVE Walk(_, _, _)
Walk(p, ds, i) == IF i > Len(ds) THEN p
                  ELSE Walk(Add(ToFiner(i, p), U[ds[i] + 1]), ds, i + 1)

SectorOfT == << 0, 5, 1, 0, 3, 4, 2 >>         \* of leading digit d, at d+1
SectorOf(d) == SectorOfT[d + 1]
DigitOfSectorT == << JKDIR, JDIR, IJDIR, IDIR, IKDIR >>
CwEdge(m) == CASE m = 1 -> 1 [] m = 2 -> 3 [] m = 3 -> 2     \* corner I, J, K
CornerPt(m, s) == CASE m = 1 -> << 2*s, 0 >> [] m = 2 -> << 0, 2*s >> [] m = 3 -> << -2*s, -2*s >>
CornerOf(p, s) == CHOOSE m \in 1..3 : CornerPt(m, s) = p

\* go n faces clockwise around corner m of face f, taking p along
RECURSIVE Unroll(_, _, _, _, _)
Unroll(n, f, m, p, s) ==
  IF n = 0 THEN << f, p >>
  ELSE LET e == CwEdge(m)
       IN Unroll(n - 1, FoldFace(f, e),
                 CornerOf(FoldPt(f, e, CornerPt(m, s), s), s),
                 FoldPt(f, e, p, s), s)

PointOf(c) ==
  LET r == Res(c)
      s == ScaleOf(r)
      p == ToClassII(r, Walk(HomePt(c.bc), c.ds, 1))
      f == HomeFace(c.bc)
  IN IF IsPentBase(c.bc)
     THEN LET y == Unroll(SectorOf(Lead(c.ds)), f, 1, p, s) IN Norm1(y[1], y[2], s)
     ELSE Norm1(f, p, s)
CanonPoint(c) == Canon(PointOf(c), ScaleOf(Res(c)))

(***************************************************************************)
(* Adjacency, geometrically: the points one lattice unit away on the        *)
(* surface.  From a corner only the units lying in a face count (the others *)
(* point into a face that is glued elsewhere).                              *)
(***************************************************************************)
UnitsClassII(r) == { ToClassII(r, U[d + 1]) : d \in 1..6 }
AdjPointsOf(x, r) ==
  LET s == ScaleOf(r)
      corner == Cardinality(Touches(x[2], s)) = 2
  IN UNION { { Canon(Norm1(y[1], Add(y[2], w), s), s) :
                 w \in {w \in UnitsClassII(r) : corner => Inside(Add(y[2], w), s)} }
             : y \in Reps(x, s) }
AdjPoints(c) == AdjPointsOf(PointOf(c), Res(c))

(***************************************************************************)
(* Digit arithmetic.  Adding direction e to digit d at a resolution gives a *)
(* new digit and possibly a carry, a direction at the next coarser          *)
(* resolution.                                                             *)
(***************************************************************************)
CarryT == [y \in (0..1) \X Digits \X Digits |->
            CHOOSE x \in Digits \X Digits :
              Add(ToFiner(y[1], U[x[2] + 1]), U[x[1] + 1]) = Add(U[y[2] + 1], U[y[3] + 1])]

RECURSIVE CarryDown(_, _, _)
CarryDown(ds, i, e) ==          \* <<digits, direction left over at the base>>
  IF e = 0 \/ i = 0 THEN << ds, e >>
  ELSE LET x == CarryT[<<i % 2, ds[i], e>>]
       IN CarryDown([ds EXCEPT ![i] = x[1]], i - 1, x[2])

(***************************************************************************)
(* Crossing between base cells.                                            *)
(***************************************************************************)
\* rotation from face f's axes to face g's, for an edge point x = <<f, p>>
RotToFace(x, g, s) ==
  IF x[1] = g THEN 0
  ELSE LET e == CHOOSE e \in Touches(x[2], s) : FoldFace(x[1], e) = g IN FoldRot(x[1], e)

\* One base cell step in the plane of face f from point p: where it lands,
\* with the rotation of axes on the way.
StepFrom(f, p, d) ==
  LET q == Add(p, U[d + 1])
  IN IF Inside(q, 1) THEN << f, q, 0 >>
     ELSE LET e == Beyond(q, 1)
          IN << FoldFace(f, e), FoldPt(f, e, q, 1), FoldRot(f, e) >>

\* The same around a pentagon's corner, through its clockwise unrolling.
RECURSIVE UnrollRot(_, _, _)
UnrollRot(n, f, m) ==
  IF n = 0 THEN << f, m, 0 >>
  ELSE LET e == CwEdge(m)
           y == UnrollRot(n - 1, FoldFace(f, e), CornerOf(FoldPt(f, e, CornerPt(m, 1), 1), 1))
       IN << y[1], y[2], y[3] + FoldRot(f, e) >>

\* which of a pentagon's five faces (clockwise from home) is face g
SectorFace(b, g) == CHOOSE n \in 0..4 : UnrollRot(n, HomeFace(b), 1)[1] = g
TowardCentre(m) == CASE m = 1 -> JKDIR [] m = 2 -> IKDIR [] m = 3 -> IJDIR
\* n such that turning d ccw n times gives e
Turns(d, e) == CHOOSE n \in 0..5 : RotDigitT[<<n, d>>] = e

\* Leaving base cell b in direction e (of b's own axes): where it leads.
\* [b: base cell, t: turn of the axes, g: face through which a pentagon is
\* entered (then t is the turn into g's axes)]
CrossHex(b, e) ==
  LET y == StepFrom(HomeFace(b), HomePt(b), e)
      x == << y[1], y[2] >>
      b2 == BaseAt[Canon(x, 1)]
  IN [b |-> b2, t |-> IF IsPentBase(b2) THEN y[3] ELSE (y[3] + RotToFace(x, HomeFace(b2), 1)) % 6, g |-> y[1]]
CrossPent(b, e) ==               \* e is not the deleted direction
  LET y == UnrollRot(SectorOf(e), HomeFace(b), 1)
      x == << y[1], Add(CornerPt(y[2], 1), U[TowardCentre(y[2]) + 1]) >>
      b2 == BaseAt[Canon(x, 1)]
  IN [b |-> b2, t |-> (y[3] + RotToFace(x, HomeFace(b2), 1)) % 6, g |-> y[1]]
CrossT == [x \in BaseCells \X (1..6) |->
            IF ~IsPentBase(x[1]) THEN CrossHex(x[1], x[2])
            ELSE IF x[2] = KDIR THEN [b |-> x[1], t |-> 99, g |-> 0] ELSE CrossPent(x[1], x[2])]

\* Arriving at pentagon base cell b through face g, with leading digit l as
\* seen in g's axes: the turn into b's own digits (99: does not arise).
ArriveAtPent(b, g, l) ==
  LET n == SectorFace(b, g)
      d0 == TowardCentre(UnrollRot(n, HomeFace(b), 1)[2])
      sector == CASE l = 0 -> n
                  [] l = d0 -> n
                  [] l = RotDigit(5, d0) -> (n + 1) % 5
                  [] l = RotDigit(1, d0) -> (n + 4) % 5
                  [] OTHER -> 99
  IN IF sector = 99 THEN 99
     ELSE IF l = 0 THEN Turns(d0, DigitOfSectorT[n + 1])
     ELSE Turns(l, DigitOfSectorT[sector + 1])
FacesAt(b) == { UnrollRot(n, HomeFace(b), 1)[1] : n \in 0..4 }
ArriveT == [x \in {y \in PentBases \X (0..19) \X Digits : y[2] \in FacesAt(y[1])} |->
              ArriveAtPent(x[1], x[2], x[3])]

\* Top of the transducer.  b: base cell, l: leading digit before the move,
\* e: direction carried out of the digits (0: none), l2: leading digit after
\* the carries.  Result <<base cell, ccw turns of all digits>>;
\* <<b, 98>>: the deleted direction of a pentagon; 99: does not arise.
Top(b, l, e, l2) ==
  IF e = 0 THEN
    IF ~IsPentBase(b) \/ l2 # KDIR THEN << b, 0 >>
    ELSE IF l = CENTER THEN << b, 98 >>
    ELSE IF l = JKDIR THEN << b, 1 >>          \* into the cut from its cw side
    ELSE IF l = IKDIR THEN << b, 5 >>          \* into the cut from its ccw side
    ELSE << b, 99 >>
  ELSE IF IsPentBase(b) THEN
    \* out of the pentagon; the deleted direction is really the one on the
    \* other side of the cut
    IF e # KDIR THEN << CrossT[<<b, e>>].b, CrossT[<<b, e>>].t >>
    ELSE IF l = IKDIR THEN << CrossT[<<b, JKDIR>>].b, (5 + CrossT[<<b, JKDIR>>].t) % 6 >>
    ELSE << CrossT[<<b, IKDIR>>].b, (1 + CrossT[<<b, IKDIR>>].t) % 6 >>
  ELSE
    LET y == CrossT[<<b, e>>]
    IN IF IsPentBase(y.b)
       THEN LET n == ArriveT[<<y.b, y.g, RotDigit(y.t, l2)>>]
            IN << y.b, IF n = 99 THEN 99 ELSE (n + y.t) % 6 >>
       ELSE << y.b, y.t >>


(***************************************************************************)
(* The neighbour of cell c in direction d of its own frame: status "ok"     *)
(* with the cell and the turn of the frame, or "deleted".                   *)
(***************************************************************************)
Move(c, d) ==
  LET w == CarryDown(c.ds, Len(c.ds), d)
      t == Top(c.bc, Lead(c.ds), w[2], Lead(w[1]))
  IN IF t[2] >= 98 THEN [st |-> IF t[2] = 98 THEN "deleted" ELSE "impossible", c |-> c, turn |-> 0]
     ELSE [st |-> "ok", c |-> [bc |-> t[1], ds |-> RotDigits(t[2], w[1])], turn |-> t[2]]

Dirs(c) == IF IsPent(c) THEN 2..6 ELSE 1..6
Neighbors(c) == { Move(c, d).c : d \in Dirs(c) }
===========================================================================
