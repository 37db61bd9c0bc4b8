------------------------------- MODULE H3Api -------------------------------
(* What each call of the library may answer, as a relation between the       *)
(* recorded arguments and the recorded outcome.  A call event is a record    *)
(* with op, arguments, and the outcome o: "ok" with value v, "err" with the  *)
(* error name e, or "panic" / "abort" / "hang", which nothing allows.        *)
(* Index words are tuples of fields (H3Index); counts and positions beyond   *)
(* 32 bits are base 7 digit sequences (H3Num) with a sign flag.              *)
EXTENDS H3Turn

Ok(ev) == ev.o = "ok"
Answers(ev) == ev.o \in {"ok", "err"}
Err(ev, names) == ev.o = "err" /\ ev.e \in names
Gives(ev, val) == ev.o = "ok" /\ ev.v = val

(***************************************************************************)
(* Words and their fields                                                   *)
(***************************************************************************)
ValidOk(ev) == Gives(ev, IsCellWord(ev.w))
GetOk(ev) == Gives(ev, GetField(ev.w, ev.f, ev.r))
PutOk(ev) == Gives(ev, PutField(ev.w, ev.f, ev.r, ev.x))
FreshOk(ev) == Gives(ev, Fresh(ev.res, ev.b, ev.d))

(***************************************************************************)
(* Census                                                                   *)
(***************************************************************************)
PentOk(ev) == IsCellWord(ev.w) => Gives(ev, IsPent(CellOf(ev.w)))
Res0Ok(ev) == /\ Ok(ev) /\ Len(ev.v) = 122
              /\ {ev.v[i] : i \in 1..Len(ev.v)} = {WordOf([bc |-> b, ds |-> <<>>]) : b \in BaseCells}
Res0CountOk(ev) == Gives(ev, 122)

(***************************************************************************)
(* Coordinates.  fin: both coordinates are finite.  (f, p, x): the point as *)
(* the harness projects it, tol its accuracy.                               *)
(***************************************************************************)
EncodeOk(ev) ==
  IF ev.res \in 0..15 /\ ev.fin
  THEN Ok(ev) /\ IsCellWord(ev.v) /\ WRes(ev.v) = ev.res
  ELSE Err(ev, (IF ev.res \in 0..15 THEN {} ELSE {"ResDomain"}) \cup
               (IF ev.fin THEN {} ELSE {"LatLngDomain"}))
LocateOk(ev) == /\ Ok(ev) /\ IsCellWord(ev.v) /\ WRes(ev.v) = ev.res
                /\ Contains(CellOf(ev.v), ev.f, ev.p, ev.x, ev.tol)
\* w's centre; rng: the coordinates are finite and in range
CentreOk(ev) == /\ Ok(ev) /\ ev.rng
                /\ IsCentre(CellOf(ev.w), ev.f, ev.p, ev.x, ev.tol)
\* w's centre encoded at resolution res, not finer than w
BackOk(ev) ==
  LET c == CellOf(ev.w) IN
  /\ Ok(ev) /\ IsCellWord(ev.v) /\ WRes(ev.v) = ev.res
  /\ IF ev.res >= Res(c) - 1 THEN ev.v = WordOf(AncestorAt(c, ev.res))
     ELSE LET q == Coarse(c, ev.res) IN Contains(CellOf(ev.v), q[1], q[2], q[3], ev.tol)

(***************************************************************************)
(* Hierarchy                                                                *)
(***************************************************************************)
HasChildrenAt(c, r) == r \in Res(c)..15
ChildrenOk(ev) ==
  LET c == CellOf(ev.w)
      n == ev.res - Res(c)
  IN IF HasChildrenAt(c, ev.res)
     THEN /\ Ok(ev) /\ ev.v # <<>>
          /\ ev.v[1] = WordOf(FirstChild(c, n))
          /\ \A i \in 1..Len(ev.v) :
               /\ IsCellWord(ev.v[i]) /\ WRes(ev.v[i]) = ev.res
               /\ LET e == CellOf(ev.v[i])
                  IN IF i < Len(ev.v) THEN HasNext(c, e) /\ ev.v[i + 1] = WordOf(NextChild(c, e))
                     ELSE ~HasNext(c, e)
     ELSE Gives(ev, <<>>)
\* the iterator over w's children at res yields v (or ends) right after z
SuccOk(ev) ==
  LET a == CellOf(ev.w) c == CellOf(ev.z)
  IN /\ IsCellWord(ev.z) /\ IsAncestor(a, c)
     /\ IF HasNext(a, c) THEN ev.o = "some" /\ ev.v = WordOf(NextChild(a, c)) ELSE ev.o = "none"
\* element pos of the list of children, or none
NthOk(ev) ==
  LET c == CellOf(ev.w) n == ev.res - Res(c)
  IN IF HasChildrenAt(c, ev.res) /\ NLess(ev.pos, Count(c, n))
     THEN ev.o = "some" /\ ev.v = WordOf(ChildAt(c, n, ev.pos)) ELSE ev.o = "none"
SizeOk(ev) ==
  LET c == CellOf(ev.w) IN
  IF HasChildrenAt(c, ev.res) THEN Gives(ev, Count(c, ev.res - Res(c))) /\ ~ev.neg
  ELSE Err(ev, {"ResDomain"})
ChildPosOk(ev) ==
  LET c == CellOf(ev.w) IN
  IF ev.res \notin 0..15 THEN Err(ev, {"ResDomain"})
  ELSE IF ev.res < Res(c) THEN Err(ev, {"ResMismatch"})
  ELSE LET n == ev.res - Res(c) IN
       IF ~ev.neg /\ NLess(ev.pos, Count(c, n)) THEN Gives(ev, WordOf(ChildAt(c, n, ev.pos)))
       ELSE Err(ev, {"Domain"})

(***************************************************************************)
(* Neighbours.  n: rotation count passed, m: count returned.                *)
(***************************************************************************)
NeighborOk(ev) ==
  LET c == CellOf(ev.w)
      d == RotDigit(ev.n, ev.d)
  IN IF IsPent(c) /\ d = KDIR THEN Answers(ev)       \* no such neighbour
     ELSE IF d = 0 THEN Gives(ev, ev.w)
     ELSE Gives(ev, WordOf(Move(c, d).c))
HeadingOk(ev) ==
  LET s == Step(CellOf(ev.w), ev.n, ev.d)
  IN IF IsPent(CellOf(ev.w)) \/ IsPent(s.c) THEN Answers(ev)
     ELSE Gives(ev, WordOf(s.c)) /\ ev.m = s.n
\* all six directions at once, v: the distinct answers, without errors
AroundOk(ev) == /\ Ok(ev)
                /\ Len(ev.v) = Cardinality(Dirs(CellOf(ev.w)))
                /\ LET S == {ev.v[i] : i \in 1..Len(ev.v)}
                   IN /\ \A x \in S : IsCellWord(x)
                      /\ {CanonPoint(CellOf(x)) : x \in S} = AdjPoints(CellOf(ev.w))
                      /\ S = {WordOf(e) : e \in Neighbors(CellOf(ev.w))}
DirToOk(ev) ==
  LET c == CellOf(ev.w) e == CellOf(ev.z)
  IN IF WRes(ev.z) = WRes(ev.w) /\ e \in Neighbors(c)
     THEN Ok(ev) /\ ev.v \in Dirs(c) /\ Move(c, ev.v).c = e
     ELSE Gives(ev, 7)

(***************************************************************************)
(* Disks and rings; v is a sequence of <<word, distance>>, or of words      *)
(***************************************************************************)
Elems(s) == {s[i] : i \in 1..Len(s)}
BallPairs(c, k) == {<<WordOf(p[1]), p[2]>> : p \in DistPairs(c, k)}
DiskOk(ev) == LET B == BallPairs(CellOf(ev.w), ev.k)
              IN Ok(ev) /\ Len(ev.v) = Cardinality(B) /\ Elems(ev.v) = B
FastDiskOk(ev) ==
  LET c == CellOf(ev.w)
  IN IF Ok(ev)
     THEN LET D == DistPairs(c, ev.k)
          IN /\ \A p \in D : ~IsPent(p[1])
             /\ Len(ev.v) = Cardinality(D)
             /\ Elems(ev.v) = {<<WordOf(p[1]), p[2]>> : p \in D}
             /\ \A i \in 1..(Len(ev.v) - 1) : ev.v[i][2] <= ev.v[i + 1][2]
     ELSE Err(ev, {"Pentagon"}) /\ PentWithin(c, ev.k)
FastRingOk(ev) ==
  LET c == CellOf(ev.w)
  IN IF ev.k = 0 THEN Gives(ev, <<ev.w>>)
     ELSE IF Ok(ev)
     THEN LET L == Layers(c, ev.k)
          IN /\ \A i \in 1..(ev.k + 1) : \A e \in L[i] : ~IsPent(e)
             /\ Len(ev.v) = 6 * ev.k
             /\ Elems(ev.v) = {WordOf(e) : e \in L[ev.k + 1]}
     ELSE Err(ev, {"Pentagon"}) /\ PentWithin(c, ev.k)
\* far from any pentagon the nearest one's distance decides; the cells are
\* followed by a walker (H3Trace)
FarOk(ev) == IF PentDist(CellOf(ev.w)) <= ev.k THEN Err(ev, {"Pentagon"}) ELSE Ok(ev)
\* a ring so wide that the distance between pentagons alone decides
WideRingOk(ev) == /\ ~NLess(ev.k, NumOf(Spacing(WRes(ev.w))))
                  /\ Err(ev, {"Pentagon"})
BoundOk(ev) == Gives(ev, DiskBound(ev.k)) /\ ~ev.neg

(***************************************************************************)
(* Directed edges                                                           *)
(***************************************************************************)
EdgeOk(ev) ==
  LET c == CellOf(ev.w) e == CellOf(ev.z)
  IN IF Res(c) = Res(e) /\ e \in Neighbors(c) THEN Gives(ev, EdgeBetween(c, e))
     ELSE Err(ev, {"NotNeighbors"})
EdgeValidOk(ev) == Gives(ev, IsEdgeWord(ev.w))
EdgeOriginOk(ev) == IF IsEdgeWord(ev.w) THEN Gives(ev, OriginWord(ev.w)) ELSE Answers(ev)
EdgeDestOk(ev) == IF IsEdgeWord(ev.w) THEN Gives(ev, WordOf(EdgeDest(ev.w))) ELSE Answers(ev)
EdgeCellsOk(ev) == IF IsEdgeWord(ev.w) THEN Gives(ev, <<OriginWord(ev.w), WordOf(EdgeDest(ev.w))>>) ELSE Answers(ev)
EdgesOk(ev) ==
  LET c == CellOf(ev.w) S == {ev.v[i] : i \in 1..Len(ev.v)}
  IN /\ Ok(ev) /\ Len(ev.v) = 6
     /\ S \ {Null} = EdgesOf(c)
     /\ (Null \in S) = IsPent(c)

(***************************************************************************)
(* Arbitrary words: an answer or an error, and the documented error where   *)
(* one is promised.  call names the function.                               *)
(***************************************************************************)
AnyOk(ev) ==
  CASE ev.call \in {"neighbor", "centre"} /\ WBase(ev.w) > 121 -> Err(ev, {"CellInvalid"})
    [] ev.call \in {"edgeorigin", "edgedest", "edgecells"} /\ Mode(ev.w) # EDGEMODE -> Err(ev, {"DirectedEdgeInvalid"})
    [] OTHER -> Answers(ev)

(***************************************************************************)
(* Angles, in ticks of 1/TURN of a full turn.                               *)
(***************************************************************************)
\* ticks to the turn.  The harness measures: x is what was asked, v what was
\* answered, rng whether that is in its range (up to rounding), and dev what is left
\* between the two in much finer units; up to most of it is rounding.
TURN == 20000000
Abs(i) == IF i < 0 THEN -i ELSE i
Measured(ev) == Ok(ev) /\ ev.rng /\ ev.dev <= ev.most
Around0(d, turn, tol) == LET m == d % turn IN m <= tol \/ m >= turn - tol
LngOk(ev) == /\ Measured(ev) /\ Abs(ev.v[1]) <= TURN \div 2 + 1
             /\ Around0(ev.x[1] - ev.v[1], TURN, ev.tol)
             /\ Abs(ev.x[1]) < TURN \div 2 => Abs(ev.v[1] - ev.x[1]) <= ev.tol
\* latitudes lose half turns
LatOk(ev) == /\ Measured(ev) /\ Abs(ev.v[1]) <= TURN \div 4 + 1
             /\ Around0(ev.x[1] - ev.v[1], TURN \div 2, ev.tol)
             /\ Abs(ev.x[1]) < TURN \div 4 => Abs(ev.v[1] - ev.x[1]) <= ev.tol
\* millidegrees to ticks
DegsOk(ev) == /\ Measured(ev)
              /\ \A i \in 1..2 : Abs(9 * ev.v[i] - 500 * ev.x[i]) <= ev.tol
AlmostOk(ev) == Gives(ev, Abs(ev.p[1] - ev.q[1]) < ev.t /\ Abs(ev.p[2] - ev.q[2]) < ev.t)

(***************************************************************************)
(* Lattice addresses and the lookups by face                                *)
(***************************************************************************)
AddressOk(ev) == /\ Ok(ev) /\ ev.v[1] \in 0..19
                 /\ LET t == << ev.v[2], ev.v[3], ev.v[4] >>
                    IN IsIjk(t) /\ IsAddress(CellOf(ev.w), ev.v[1], FromIjk(t))
NameOfOk(ev) ==
  LET c == CellNamed(ev.f, ev.p, ev.res)
      far == Climb(ev.p, ev.res, <<>>)[1] \notin FacePoints
  IN IF far THEN Gives(ev, Null)
     ELSE IF ~NearFace(ev.res, ev.p) THEN Answers(ev)
     ELSE /\ Gives(ev, WordOf(c))
          /\ IsAddress(c, ev.f, ev.p)
\* the digits followed in one plane, from the base cell's point there
UnfoldOk(ev) ==
  LET c == CellOf(ev.w)
      t == << ev.v[3], ev.v[4], ev.v[5] >>
  IN /\ Ok(ev) /\ ev.v[2] = ev.f /\ IsIjk(t)
     /\ FromIjk(t) = Walk(ev.p, c.ds, 1)
     \* 0: surely on its home face
     /\ (ev.f = HomeFace(c.bc) /\ ev.p = HomePt(c.bc) /\ ev.v[1] = 0) => Inside(ToClassII(Res(c), FromIjk(t)), ScaleOf(Res(c)))
BaseAtOk(ev) == LET q == FromIjk(ev.t) IN Gives(ev, << PlaceBaseT[<<ev.f, q>>].b, BaseTurn(ev.f, q) >>)
BaseNbOk(ev) == /\ Ok(ev) /\ ev.v[1] = BaseNeighbor(ev.b, ev.d)
                /\ IF ev.d = 0 THEN ev.v[2] = 0
                   ELSE IF ev.v[1] = NoBase THEN TRUE
                   ELSE /\ ev.v[2] \in 0..5
                        /\ ~IsPentBase(ev.b) /\ ~IsPentBase(ev.v[1]) => ev.v[2] = CrossT[<<ev.b, ev.d>>].t
Bit(x) == IF x THEN 1 ELSE 0
BaseIsOk(ev) == LET real == ev.b \in BaseCells
                IN Gives(ev, << Bit(real /\ IsPentBase(ev.b)), Bit(real /\ Polar(ev.b)) >>)
CwOffOk(ev) == Gives(ev, CwOffset(ev.b, ev.f))

(***************************************************************************)
(* Turning, and the digits of a word                                        *)
(***************************************************************************)
WLead(w) == Lead(DigitsOf(w))
TurnOk(ev) ==
  LET c == CellOf(ev.w)
  IN IF ev.pent THEN /\ Gives(ev, WordOf(TurnPent(c, ev.n)))
                     /\ CanonPoint(TurnPent(c, ev.n)) = Canon(TurnedPent(c, ev.n), ScaleOf(Res(c)))
     ELSE Gives(ev, WordOf(TurnHex(c, ev.n)))
ZeroOk(ev) == Gives(ev, [i \in 1..20 |-> IF i \in (5 + ev.from)..(5 + ev.to) THEN 0 ELSE ev.w[i]])
LeadOk(ev) == Gives(ev, WLead(ev.w))
\* the iterator's counter: the digits of the child to come, n added at a place
CountOk(ev) ==
  LET first == [i \in 1..20 |-> IF i = 4 THEN ev.res ELSE IF i \in (6 + WRes(ev.w))..(5 + ev.res) THEN 0 ELSE ev.w[i]]
      ds == Tally(SubSeq(first, 6, 20), ev.at, ev.n)
  IN Gives(ev, << <<0, 0, 0, 0, 0>> \o ds, SubSeq(first, 1, 5) \o ds >>)
HasKidsOk(ev) == Gives(ev, ev.res \in WRes(ev.w)..15)
PosValidOk(ev) ==
  LET c == CellOf(ev.w) IN
  IF ~HasChildrenAt(c, ev.res) THEN Err(ev, {"ResDomain"})
  ELSE IF ~ev.neg /\ NLess(ev.pos, Count(c, ev.res - Res(c))) THEN Ok(ev)
  ELSE Err(ev, {"Domain"})
Class3Ok(ev) == Gives(ev, ev.res % 2 = 1)

(***************************************************************************)
(* Spherical geometry, measured by the harness.  x: expected; v: answered.  *)
(***************************************************************************)
TURNF == 2000000000
TravelOk(ev) == Measured(ev) /\ ev.v[1] <= ev.tol        \* gap to the destination
AzimuthOk(ev) == Measured(ev) /\ Around0(ev.x[1] - ev.v[1], TURNF, ev.tol)
PosAngleOk(ev) == /\ Measured(ev) /\ ev.v[1] \in 0..(TURN + 1)
                  /\ Around0(ev.x[1] - ev.v[1], TURN, ev.tol)
                  /\ ev.x[1] \in 1..(TURN - 1) => Abs(ev.v[1] - ev.x[1]) <= ev.tol
AsExpectedOk(ev) == Measured(ev) /\ Len(ev.v) = Len(ev.x) /\ \A i \in 1..Len(ev.v) : Abs(ev.x[i] - ev.v[i]) <= ev.tol
MagOk(ev) == /\ Measured(ev) /\ ev.v[1] >= 0          \* v: ten times the length
             /\ Abs(ev.v[1] * ev.v[1] - 100 * (ev.x[1] * ev.x[1] + ev.x[2] * ev.x[2])) <= ev.v[1] + 1

Accepts(ev) ==
  CASE ev.op = "valid" -> ValidOk(ev)
    [] ev.op = "get" -> GetOk(ev)
    [] ev.op = "put" -> PutOk(ev)
    [] ev.op = "fresh" -> FreshOk(ev)
    [] ev.op = "pent" -> PentOk(ev)
    [] ev.op = "res0" -> Res0Ok(ev)
    [] ev.op = "res0count" -> Res0CountOk(ev)
    [] ev.op = "encode" -> EncodeOk(ev)
    [] ev.op = "locate" -> LocateOk(ev)
    [] ev.op = "centre" -> CentreOk(ev)
    [] ev.op = "back" -> BackOk(ev)
    [] ev.op = "children" -> ChildrenOk(ev)
    [] ev.op = "succ" -> SuccOk(ev)
    [] ev.op = "size" -> SizeOk(ev)
    [] ev.op = "childpos" -> ChildPosOk(ev)
    [] ev.op = "neighbor" -> NeighborOk(ev)
    [] ev.op = "heading" -> HeadingOk(ev)
    [] ev.op = "around" -> AroundOk(ev)
    [] ev.op = "dirto" -> DirToOk(ev)
    [] ev.op = "disk" -> DiskOk(ev)
    [] ev.op = "fastdisk" -> FastDiskOk(ev)
    [] ev.op = "fastring" -> FastRingOk(ev)
    [] ev.op \in {"farring", "fardisk"} -> FarOk(ev)
    [] ev.op = "nth" -> NthOk(ev)
    [] ev.op = "widering" -> WideRingOk(ev)
    [] ev.op = "bound" -> BoundOk(ev)
    [] ev.op = "edge" -> EdgeOk(ev)
    [] ev.op = "edgevalid" -> EdgeValidOk(ev)
    [] ev.op = "edgeorigin" -> EdgeOriginOk(ev)
    [] ev.op = "edgedest" -> EdgeDestOk(ev)
    [] ev.op = "edgecells" -> EdgeCellsOk(ev)
    [] ev.op = "edges" -> EdgesOk(ev)
    [] ev.op = "any" -> AnyOk(ev)
    [] ev.op = "lng" -> LngOk(ev)
    [] ev.op = "lat" -> LatOk(ev)
    [] ev.op = "degs" -> DegsOk(ev)
    [] ev.op = "almost" -> AlmostOk(ev)
    [] ev.op = "address" -> AddressOk(ev)
    [] ev.op = "nameof" -> NameOfOk(ev)
    [] ev.op = "unfold" -> UnfoldOk(ev)
    [] ev.op = "baseat" -> BaseAtOk(ev)
    [] ev.op = "basenb" -> BaseNbOk(ev)
    [] ev.op = "baseis" -> BaseIsOk(ev)
    [] ev.op = "cwoff" -> CwOffOk(ev)
    [] ev.op = "turn" -> TurnOk(ev)
    [] ev.op = "zero" -> ZeroOk(ev)
    [] ev.op = "lead" -> LeadOk(ev)
    [] ev.op = "count" -> CountOk(ev)
    [] ev.op = "haskids" -> HasKidsOk(ev)
    [] ev.op = "posvalid" -> PosValidOk(ev)
    [] ev.op = "class3" -> Class3Ok(ev)
    [] ev.op = "travel" -> TravelOk(ev)
    [] ev.op = "azimuth" -> AzimuthOk(ev)
    [] ev.op = "posangle" -> PosAngleOk(ev)
    [] ev.op \in {"vec", "sqdist"} -> AsExpectedOk(ev)
    [] ev.op = "mag" -> MagOk(ev)
=============================================================================
