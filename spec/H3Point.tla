------------------------------- MODULE H3Point -------------------------------
(* Which cell contains a point.  A query point lies on a face f, at whole    *)
(* Class II lattice coordinates p plus a fraction x in units of 1/FRAC.      *)
(* A cell's region is the set of points nearest to its centre: in every      *)
(* direction w of a neighbour, at most half way.                             *)
EXTENDS H3Edge

FRAC == 10000
\* twice the inner product
Dot2(p, q) == 2 * p[1] * q[1] + 2 * p[2] * q[2] - p[1] * q[2] - p[2] * q[1]

\* the centre's places in the plane of face f: on it, or across one edge
ImagesOn(x, f, s) ==
  LET R == Reps(x, s)
  IN { y[2] : y \in {z \in R : z[1] = f} } \cup
     UNION { { FoldPt(y[1], e, y[2], s) : e \in {e \in 1..3 : FoldFace(y[1], e) = f} } : y \in R }

\* offset in FRACths from the centre image z; only used when it is small
Near(p, z) == LET d == Sub(p, z) IN d[1] \in -6..6 /\ d[2] \in -6..6
Offset(p, x, z) == Add(Scale(FRAC, Sub(p, z)), x)

\* tol: allowed error of the query, in FRACths of the lattice unit
ContainsAt(r, p, x, z, tol) ==
  /\ Near(p, z)
  /\ \A w \in UnitsClassII(r) : Dot2(Offset(p, x, z), w) <= FRAC * Norm(w) + 6 * tol
Contains(c, f, p, x, tol) ==
  \E z \in ImagesOn(PointOf(c), f, ScaleOf(Res(c))) : ContainsAt(Res(c), p, x, z, tol)
IsCentre(c, f, p, x, tol) ==
  \E z \in ImagesOn(PointOf(c), f, ScaleOf(Res(c))) :
    /\ Near(p, z)
    /\ LET d == Offset(p, x, z) IN d[1] \in -tol..tol /\ d[2] \in -tol..tol

\* the point of a cell as a query at a coarser resolution r: the lattice
\* coordinates divided by the ratio of scales
Coarse(c, r) ==
  LET m == (Res(c) + 1) \div 2 - (r + 1) \div 2
      k == Pow7(m)
      \* the fraction, from its five leading digits
      l == IF m > 5 THEN Pow7(m - 5) ELSE 1
      Part(a) == (((a % k) \div l) * FRAC) \div (k \div l)
      y == PointOf(c)
  IN << y[1], << y[2][1] \div k, y[2][2] \div k >>, << Part(y[2][1]), Part(y[2][2]) >> >>
=============================================================================
