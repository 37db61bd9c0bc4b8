------------------------------ MODULE H3Export ------------------------------
(* Writes the tables that the specification derives, as JSON, for the       *)
(* conformance harness (which screens with them; TLC gives the verdicts).   *)
EXTENDS H3Turn, Json, IOUtils

TopList(z) == [b \in 1..122 |-> [l \in 1..7 |-> [e \in 1..7 |-> [m \in 1..7 |->
              Top(b - 1, l - 1, e - 1, m - 1)]]]]
Tables(z) ==
  [ gluing |-> Gluing,
    homes  |-> Homes,
    pents  |-> [b \in 1..122 |-> IF IsPentBase(b - 1) THEN 1 ELSE 0],
    rot    |-> [n \in 1..6 |-> [d \in 1..7 |-> RotDigitT[<<n - 1, d - 1>>]]],
    carry  |-> [c \in 1..2 |-> [d \in 1..7 |-> [e \in 1..7 |-> CarryT[<<c - 1, d - 1, e - 1>>]]]],
    units  |-> U,
    top    |-> TopList(z),
    baseat |-> [f \in 1..20 |-> {<< q[1], q[2], PlaceBaseT[<<f - 1, q>>].b, BaseTurn(f - 1, q) >> : q \in FacePoints}],
    polar  |-> {b \in BaseCells : Polar(b)},
    cwoff  |-> [b \in 1..122 |-> {f \in 0..19 : CwOffset(b - 1, f)}] ]
VARIABLE exported
Init == exported = 0 /\ JsonSerialize(IOEnv.H3_TABLES, Tables(0))
Next == FALSE /\ exported' = exported
Spec == Init /\ [][Next]_exported
=============================================================================
