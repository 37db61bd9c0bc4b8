------------------------------ MODULE H3Ico ------------------------------
(* The icosahedron H3 is drawn on, as a gluing of twenty lattice triangles,  *)
(* and the published numbering of the 122 base cells.  These two literals    *)
(* are the only tables in the specification; everything else (base cell      *)
(* adjacency, frame rotations, digit-carry tables, pentagon sectors, cw/ccw  *)
(* offset faces) is derived from them in H3Grid.                             *)
EXTENDS Integers, Sequences

\* Gluing[f+1][e] = <<neighbour face, ccw rotations, translation a, b>>
\* for the three edges of face f: e = 1 is the IJ edge, 2 the KI edge,
\* 3 the JK edge.  A point p of face f's plane lying beyond edge e has, in
\* the neighbour's plane, coordinates Rot60ccw^n(p) + scale * <<a, b>>.
Gluing == <<
  <<<<4,1,0,-2>>, <<1,5,2,2>>, <<5,3,-2,0>>>>,
  <<<<0,1,0,-2>>, <<2,5,2,2>>, <<6,3,-2,0>>>>,
  <<<<1,1,0,-2>>, <<3,5,2,2>>, <<7,3,-2,0>>>>,
  <<<<2,1,0,-2>>, <<4,5,2,2>>, <<8,3,-2,0>>>>,
  <<<<3,1,0,-2>>, <<0,5,2,2>>, <<9,3,-2,0>>>>,
  <<<<10,3,2,2>>, <<14,3,0,-2>>, <<0,3,-2,0>>>>,
  <<<<11,3,2,2>>, <<10,3,0,-2>>, <<1,3,-2,0>>>>,
  <<<<12,3,2,2>>, <<11,3,0,-2>>, <<2,3,-2,0>>>>,
  <<<<13,3,2,2>>, <<12,3,0,-2>>, <<3,3,-2,0>>>>,
  <<<<14,3,2,2>>, <<13,3,0,-2>>, <<4,3,-2,0>>>>,
  <<<<5,3,2,2>>, <<6,3,0,-2>>, <<15,3,-2,0>>>>,
  <<<<6,3,2,2>>, <<7,3,0,-2>>, <<16,3,-2,0>>>>,
  <<<<7,3,2,2>>, <<8,3,0,-2>>, <<17,3,-2,0>>>>,
  <<<<8,3,2,2>>, <<9,3,0,-2>>, <<18,3,-2,0>>>>,
  <<<<9,3,2,2>>, <<5,3,0,-2>>, <<19,3,-2,0>>>>,
  <<<<16,1,0,-2>>, <<19,5,2,2>>, <<10,3,-2,0>>>>,
  <<<<17,1,0,-2>>, <<15,5,2,2>>, <<11,3,-2,0>>>>,
  <<<<18,1,0,-2>>, <<16,5,2,2>>, <<12,3,-2,0>>>>,
  <<<<19,1,0,-2>>, <<17,5,2,2>>, <<13,3,-2,0>>>>,
  <<<<15,1,0,-2>>, <<18,5,2,2>>, <<14,3,-2,0>>>>
>>

\* Homes[b+1] = <<face, a, b>>: the res-0 lattice point of base cell b, in its
\* home face, whose axes orient the cell's digits.
Homes == <<
  <<1,1,0>>, <<2,1,1>>, <<1,0,0>>, <<2,1,0>>, <<0,2,0>>, <<1,1,1>>,
  <<1,-1,-1>>, <<2,0,0>>, <<0,1,0>>, <<2,0,1>>, <<1,0,1>>, <<1,-1,0>>,
  <<3,1,0>>, <<3,1,1>>, <<11,2,0>>, <<4,1,0>>, <<0,0,0>>, <<6,0,1>>,
  <<0,-1,-1>>, <<2,-1,0>>, <<7,-1,-1>>, <<2,-1,-1>>, <<0,1,1>>, <<6,-1,-1>>,
  <<10,2,0>>, <<6,0,0>>, <<3,0,0>>, <<11,1,0>>, <<4,1,1>>, <<3,0,1>>,
  <<0,-1,0>>, <<4,0,0>>, <<5,0,1>>, <<0,0,1>>, <<7,0,1>>, <<11,1,1>>,
  <<7,0,0>>, <<10,1,0>>, <<12,2,0>>, <<6,0,-1>>, <<7,0,-1>>, <<4,-1,-1>>,
  <<3,-1,-1>>, <<3,-1,0>>, <<4,0,1>>, <<6,1,0>>, <<11,0,0>>, <<8,-1,-1>>,
  <<5,-1,-1>>, <<14,2,0>>, <<5,0,0>>, <<12,1,0>>, <<10,1,1>>, <<4,-1,0>>,
  <<12,1,1>>, <<7,1,0>>, <<11,0,1>>, <<10,0,0>>, <<13,2,0>>, <<10,-1,-1>>,
  <<11,-1,-1>>, <<9,0,1>>, <<8,0,1>>, <<6,2,0>>, <<8,0,0>>, <<9,-1,-1>>,
  <<14,1,0>>, <<5,0,-1>>, <<16,-1,0>>, <<8,0,-1>>, <<5,1,0>>, <<12,0,0>>,
  <<7,2,0>>, <<12,0,1>>, <<10,0,1>>, <<9,0,0>>, <<13,1,0>>, <<16,-1,-1>>,
  <<15,-1,0>>, <<15,0,1>>, <<16,0,1>>, <<14,1,1>>, <<13,1,1>>, <<5,2,0>>,
  <<8,1,0>>, <<14,0,0>>, <<9,0,-1>>, <<14,-1,-1>>, <<17,-1,-1>>, <<12,-1,-1>>,
  <<16,0,0>>, <<17,-1,0>>, <<15,-1,-1>>, <<16,0,-1>>, <<9,1,0>>, <<15,0,0>>,
  <<13,0,0>>, <<8,2,0>>, <<13,0,1>>, <<17,0,-1>>, <<19,0,1>>, <<14,0,1>>,
  <<19,-1,0>>, <<17,0,1>>, <<13,-1,-1>>, <<17,0,0>>, <<16,1,0>>, <<9,2,0>>,
  <<15,0,-1>>, <<15,1,0>>, <<18,-1,0>>, <<18,-1,-1>>, <<19,-1,-1>>, <<17,1,0>>,
  <<19,0,0>>, <<18,0,1>>, <<18,0,-1>>, <<19,2,0>>, <<19,1,0>>, <<18,0,0>>,
  <<19,0,-1>>, <<18,1,0>>
>>

===========================================================================
