------------------------------ MODULE H3Index ------------------------------
(* The 64-bit index word as the tuple of its fields, in order:               *)
(*   1 high bit (1 bit), 2 mode (4), 3 reserved / edge direction (3),        *)
(*   4 resolution (4), 5 base cell (7), 6..20 digits of resolution 1..15 (3) *)
EXTENDS H3Grid

Widths == << 1, 4, 3, 4, 7 >> \o [i \in 1..15 |-> 3]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
IsWord(w) == Len(w) = 20 /\ \A i \in 1..20 : w[i] \in 0..(Pow2(Widths[i]) - 1)
Null == [i \in 1..20 |-> 0]

CELLMODE == 1
EDGEMODE == 2

HighBit(w) == w[1]
Mode(w) == w[2]
Reserved(w) == w[3]
WRes(w) == w[4]
WBase(w) == w[5]
WDigit(w, r) == w[5 + r]

\* digits of the word up to its resolution
DigitsOf(w) == [i \in 1..WRes(w) |-> WDigit(w, i)]
CellOf(w) == [bc |-> WBase(w), ds |-> DigitsOf(w)]
WordOf(c) == << 0, CELLMODE, 0, Len(c.ds), c.bc >> \o
             [i \in 1..15 |-> IF i <= Len(c.ds) THEN c.ds[i] ELSE 7]

IsCellWord(w) == /\ HighBit(w) = 0 /\ Mode(w) = CELLMODE /\ Reserved(w) = 0
                 /\ \A r \in (WRes(w) + 1)..15 : WDigit(w, r) = 7
                 /\ IsCell(CellOf(w))

\* order of words of equal header is the order of their digits
RECURSIVE DigitsBefore(_, _, _)
DigitsBefore(v, w, i) == IF i > 20 THEN FALSE
                         ELSE IF v[i] # w[i] THEN v[i] < w[i]
                         ELSE DigitsBefore(v, w, i + 1)
Before(v, w) == DigitsBefore(v, w, 1)

\* the fields as the accessors name them
FieldNo(name, r) == CASE name = "high" -> 1 [] name = "mode" -> 2 [] name = "reserved" -> 3
                      [] name = "res" -> 4 [] name = "base" -> 5 [] name = "digit" -> 5 + r
GetField(w, name, r) == w[FieldNo(name, r)]
PutField(w, name, r, v) == [w EXCEPT ![FieldNo(name, r)] = v]
\* setH3Index
Fresh(res, bc, d) == << 0, CELLMODE, 0, res, bc >> \o [i \in 1..15 |-> IF i <= res THEN d ELSE 7]
=============================================================================
