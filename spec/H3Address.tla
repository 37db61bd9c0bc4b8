------------------------------ MODULE H3Address ------------------------------
(* Lattice addresses.  An address is a face and a lattice point of its plane *)
(* in the axes of the resolution.  A point of the surface has one address    *)
(* per face it lies on, and further ones in the planes of the faces beside.  *)
(* AddressOf leads from a cell to an address, CellNamed back, climbing the   *)
(* lattice digit by digit: neither uses the other.                           *)
EXTENDS H3Point

\* a lattice point p of resolution r as a child: its parent's centre and the digit
UpPoint(r, p) == IF r % 2 = 1 THEN << (3 * p[1] - p[2]) \div 7, (p[1] + 2 * p[2]) \div 7 >>
                 ELSE << (2 * p[1] + p[2]) \div 7, (3 * p[2] - p[1]) \div 7 >>
UpDigit(r, p) == CHOOSE d \in Digits : LET q == Sub(p, U[d + 1]) IN ToFiner(r, UpPoint(r, q)) = q
RECURSIVE Climb(_, _, _)
Climb(p, r, ds) ==               \* << resolution 0 point, digits in the face's axes >>
  IF r = 0 THEN << p, ds >>
  ELSE LET d == UpDigit(r, p) IN Climb(UpPoint(r, Sub(p, U[d + 1])), r - 1, << d >> \o ds)

\* The base cell at a resolution 0 point of face f's plane (at most one edge
\* beyond), with the turn of the axes from the face's to the cell's own.
OneBeyond(p, s) == Cardinality({e \in 1..3 : EdgeForm(e, p) > 2 * s}) <= 1
PlaceBase(f, q) ==
  LET x == Norm1(f, q, 1)
      over == IF Inside(q, 1) THEN 0 ELSE FoldRot(f, Beyond(q, 1))
      b == BaseAt[Canon(x, 1)]
  IN [b |-> b, x |-> x, turn |-> IF IsPentBase(b) THEN over ELSE (over + RotToFace(x, HomeFace(b), 1)) % 6]
\* the 19 resolution 0 points in and around a face
FacePoints == {p \in (-2..2) \X (-2..2) : HexDist(p) <= 2}
PlaceBaseT == [y \in (0..19) \X FacePoints |-> PlaceBase(y[1], y[2])]

\* The cell with the address; NoCell where the address names none: outside,
\* or in the sector that a pentagon lacks.
NoCell == [bc |-> 127, ds |-> <<>>]
CellNamed(f, p, r) ==
  LET y == Climb(p, r, <<>>)
  IN IF y[1] \notin FacePoints THEN NoCell
     ELSE LET b == PlaceBaseT[<<f, y[1]>>]
          IN IF ~IsPentBase(b.b) THEN [bc |-> b.b, ds |-> RotDigits(b.turn, y[2])]
             ELSE LET n == ArriveAtPent(b.b, b.x[1], RotDigit(b.turn, Lead(y[2])))
                  IN IF n = 99 THEN NoCell ELSE [bc |-> b.b, ds |-> RotDigits(b.turn + n, y[2])]

\* addresses of a cell: on the faces it lies on, and seen from beside
OnFace(c) == {<< y[1], InOwnAxes(Res(c), y[2]) >> : y \in Reps(PointOf(c), ScaleOf(Res(c)))}
Beside(c) == LET s == ScaleOf(Res(c))
             IN UNION {{<< FoldFace(y[1], e), InOwnAxes(Res(c), FoldPt(y[1], e, y[2], s)) >> : e \in 1..3}
                       : y \in Reps(PointOf(c), s)}
\* p, in the plane of a face, is the address of c there
IsAddress(c, f, p) == << f, p >> \in OnFace(c) \cup Beside(c)

\* Where an address names a cell: on a face, or beyond one of its edges on the
\* face beside, as far as the base cells known there reach (HexDist 2); about
\* the pentagons only within a lattice unit, which is where rounding a point
\* of the face to the nearest lattice point can lead.
Reach(r) == IF r % 2 = 1 THEN 5 ELSE 1
Corners == {<<2, 0>>, <<0, 2>>, <<-2, -2>>}
NearFace(r, p) == LET q == ToClassII(r, p) s == ScaleOf(r)
                      b == Climb(p, r, <<>>)[1]
                  IN \/ Inside(q, s)
                     \/ /\ OneBeyond(q, s)
                        /\ Inside(FoldPt(0, Beyond(q, s), q, s), s)
                        /\ b \in FacePoints
                        /\ b \in Corners => \A e \in 1..3 : EdgeForm(e, q) <= 2 * s + Reach(r)

\* ijk+ coordinates: three, none negative, one of them zero
IsIjk(t) == (\A i \in 1..3 : t[i] >= 0) /\ \E i \in 1..3 : t[i] = 0
FromIjk(t) == << t[1] - t[3], t[2] - t[3] >>

(***************************************************************************)
(* The lookups of base cells.                                              *)
(***************************************************************************)
NoBase == 127
BaseNeighbor(b, d) == IF d = 0 THEN b ELSE IF IsPentBase(b) /\ d = KDIR THEN NoBase ELSE CrossT[<<b, d>>].b
\* a pentagon all of whose neighbours have it in the same direction
Polar(b) == IsPentBase(b) /\ \E d \in 1..6 : \A e \in 2..6 :
              LET n == CrossT[<<b, e>>].b IN CrossT[<<n, d>>].b = b
=============================================================================
