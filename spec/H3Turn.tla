------------------------------- MODULE H3Turn -------------------------------
(* Turning a cell about the centre of its base cell: the digits turn; about  *)
(* a pentagon five turns go round, and the deleted sector is skipped.        *)
EXTENDS H3Address

TurnHex(c, n) == [c EXCEPT !.ds = RotDigits(n % 6, c.ds)]
PentTurns(d, n) == IF d = 0 \/ RotDigit(n, d) # KDIR THEN n ELSE 2 * n       \* n: 1 or 5
TurnPent(c, n) == [c EXCEPT !.ds = RotDigits(PentTurns(Lead(c.ds), n) % 6, c.ds)]

\* The same on the surface: about a base cell that lies in its home face's
\* plane the plane turns, about a pentagon each face becomes the next.
TurnedHex(c, n) ==
  LET r == Res(c) s == ScaleOf(r)
      o == ToClassII(r, Scaled(1, r, HomePt(c.bc)))
      p == ToClassII(r, Walk(HomePt(c.bc), c.ds, 1))
  IN Norm1(HomeFace(c.bc), Add(o, RotN(n, Sub(p, o))), s)
\* corner m to the next corner counter-clockwise is two turns of the face
ToCorner(m, k) == (2 * (k - m)) % 6
TurnedPent(c, n) ==
  LET s == ScaleOf(Res(c))
      y == CHOOSE y \in Reps(PointOf(c), s) : y[1] \in FacesAt(c.bc)
      i == SectorFace(c.bc, y[1])
      from == UnrollRot(i, HomeFace(c.bc), 1)
      to == UnrollRot((i + (IF n = 1 THEN 4 ELSE 1)) % 5, HomeFace(c.bc), 1)
  IN << to[1], RotN(ToCorner(from[2], to[2]), y[2]) >>

(***************************************************************************)
(* The lookups by face: which base cell is at a point of its plane, and how *)
(* often the digits turn from the face's axes to the cell's (about the base *)
(* cell, in the sense above).  A pentagon seen from a face has its deleted  *)
(* digit K within reach on some faces: on the offset ones it is taken for   *)
(* the next digit clockwise, on the others for the next counter-clockwise.  *)
(***************************************************************************)
PentDigit(d, n) == IF d = 0 THEN 0 ELSE RotDigit(PentTurns(d, n), d)
RECURSIVE PentDigitN(_, _)
PentDigitN(d, n) == IF n = 0 THEN d ELSE PentDigitN(PentDigit(d, 1), n - 1)
PentSteps(b, f) ==
  LET i == SectorFace(b, f)
      d0 == TowardCentre(UnrollRot(i, HomeFace(b), 1)[2])
  IN CHOOSE n \in 0..4 : PentDigitN(d0, n) = DigitOfSectorT[i + 1]
BaseTurn(f, q) == LET x == PlaceBaseT[<<f, q>>]
                  IN IF IsPentBase(x.b) THEN PentSteps(x.b, f) ELSE x.turn
KFrom(b, f, d) == ArriveT[<<b, f, KDIR>>] # 99 /\ PentDigitN(d, PentSteps(b, f)) = RotDigit(ArriveT[<<b, f, KDIR>>], KDIR)
CwOffset(b, f) == IsPentBase(b) /\ f \in FacesAt(b) /\ KFrom(b, f, JKDIR)
CcwOffset(b, f) == IsPentBase(b) /\ f \in FacesAt(b) /\ KFrom(b, f, IKDIR)
PentLookups ==
  \A b \in PentBases : \A f \in FacesAt(b) :
    /\ ~(CwOffset(b, f) /\ CcwOffset(b, f))
    /\ (CwOffset(b, f) \/ CcwOffset(b, f)) <=> ArriveT[<<b, f, KDIR>>] # 99
    /\ \A l \in 0..6 : ArriveT[<<b, f, l>>] # 99 /\ l # KDIR /\ l # 0 =>
         PentDigitN(l, PentSteps(b, f)) = RotDigit(ArriveT[<<b, f, l>>], l)
=============================================================================
