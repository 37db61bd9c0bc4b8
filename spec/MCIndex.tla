------------------------------- MODULE MCIndex -------------------------------
(* Words as they are put together and disturbed, field by field: setH3Index  *)
(* starts one, the field writers change it.  Validity of cells and edges is  *)
(* stated twice: as the predicates of the specification, and here as         *)
(* membership of the set of all words that some cell or edge has.            *)
EXTENDS H3Edge
CONSTANTS Bases, Rs, Deviations
VARIABLES word, left
vars == << word, left >>

Fields == {"high", "mode", "reserved", "res", "base"}
\* values worth writing: of digits all, of the others the telling ones
Values(f) == CASE f = "high" -> {0, 1} [] f = "mode" -> {0, 1, 2, 15} [] f = "reserved" -> {0, 1, 2, 6, 7}
               [] f = "res" -> Rs \cup {0, 15} [] f = "base" -> Bases \cup {0, 121, 122, 127}
Places == {1, 2, 3, 15}

Init == /\ left = Deviations
        /\ \E b \in Bases, r \in Rs, d \in 0..6 : word = Fresh(r, b, d)
Write(f, i, v) == word' = PutField(word, f, i, v)
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ \E f \in Fields : \E v \in Values(f) : Write(f, 0, v)
           \/ \E i \in Places : \E v \in 0..7 : Write("digit", i, v)
Spec == Init /\ [][Next]_vars

Word == IsWord(word)
\* the words of the cells with this base cell number and this many digits
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, d) : s \in Strings(n - 1), d \in 0..6}
DeletedStrings(n) == {s \in Strings(n) : \E i \in 1..n : s[i] = 1 /\ \A j \in 1..(i - 1) : s[j] = 0}
CellWordsAt(b, n) == IF b > 121 THEN {}
                     ELSE {WordOf([bc |-> b, ds |-> s]) : s \in Strings(n) \ (IF IsPentBase(b) THEN DeletedStrings(n) ELSE {})}
Short == WRes(word) <= 2
ValidExactly == Short => (IsCellWord(word) <=> word \in CellWordsAt(WBase(word), WRes(word)))
EdgeExactly == Short => (IsEdgeWord(word) <=>
                 \E w \in CellWordsAt(WBase(word), WRes(word)) : \E d \in 1..6 :
                    /\ word = [w EXCEPT ![2] = EDGEMODE, ![3] = d]
                    /\ ~(IsPent(CellOf(w)) /\ d = KDIR))
RoundTrip == IsCellWord(word) => WordOf(CellOf(word)) = word
NotBoth == ~(IsCellWord(word) /\ IsEdgeWord(word))
Deleted == IsCellWord(word) /\ IsPent(CellOf(word)) => \A i \in 1..WRes(word) : WDigit(word, i) = 0
\* a writer changes its own field, to the value, and nothing else
Writes == [][\A f \in Fields \cup {"digit"} : \A i \in Places : \A v \in 0..1 :
              LET w == PutField(word, f, i, v)
              IN /\ GetField(w, f, i) = v
                 /\ \A j \in 1..20 : j # FieldNo(f, i) => w[j] = word[j]]_vars
=============================================================================
