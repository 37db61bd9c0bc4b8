------------------------------- MODULE H3Num -------------------------------
(* Natural numbers beyond TLC's 32-bit integers, as base 7 digit sequences,  *)
(* most significant digit first, without leading zeros (zero is <<>>).       *)
(* Base 7 because the grid's hierarchy counts in it.                         *)
EXTENDS Integers, Sequences

RECURSIVE Strip(_)
Strip(n) == IF n = <<>> \/ n[1] # 0 THEN n ELSE Strip(SubSeq(n, 2, Len(n)))
IsNum(n) == /\ \A i \in 1..Len(n) : n[i] \in 0..6
            /\ n # <<>> => n[1] # 0
Zeros(k) == [i \in 1..k |-> 0]
Pad(n, k) == Zeros(k - Len(n)) \o n             \* k >= Len(n)

RECURSIVE NumOf(_)
NumOf(i) == IF i = 0 THEN <<>> ELSE Append(NumOf(i \div 7), i % 7)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(m, n, i) == IF i > Len(m) THEN 0
                    ELSE IF m[i] # n[i] THEN (IF m[i] < n[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(m, n, i + 1)
Cmp(m, n) == IF Len(m) # Len(n) THEN (IF Len(m) < Len(n) THEN -1 ELSE 1)
             ELSE CmpFrom(m, n, 1)
NLess(m, n) == Cmp(m, n) < 0

\* Sums of column values with carries (columns may hold any naturals,
\* or negative ones if the whole is not negative)
RECURSIVE Settle(_, _, _)
Settle(cols, i, carry) ==        \* from the last column back; i: columns left
  IF i = 0 THEN (IF carry = 0 THEN <<>> ELSE Settle(<<carry>>, 1, 0))
  ELSE LET v == cols[i] + carry
       IN Append(Settle(cols, i - 1, v \div 7), v % 7)
Normal(cols) == Strip(Settle(cols, Len(cols), 0))

Max2(i, j) == IF i > j THEN i ELSE j
NAdd(m, n) == LET k == Max2(Len(m), Len(n)) a == Pad(m, k) b == Pad(n, k)
              IN Normal([i \in 1..k |-> a[i] + b[i]])
NSub(m, n) == LET k == Max2(Len(m), Len(n)) a == Pad(m, k) b == Pad(n, k)
              IN Normal([i \in 1..k |-> a[i] - b[i]])        \* m >= n
NInc(m) == NAdd(m, <<1>>)
RECURSIVE ColSum(_, _, _, _)
ColSum(m, n, c, i) ==            \* sum of m[i]*n[c+1-i]
  IF i > Len(m) THEN 0
  ELSE (IF c + 1 - i \in 1..Len(n) THEN m[i] * n[c + 1 - i] ELSE 0) + ColSum(m, n, c, i + 1)
NMul(m, n) == IF m = <<>> \/ n = <<>> THEN <<>>
              ELSE Normal([c \in 1..(Len(m) + Len(n) - 1) |-> ColSum(m, n, c, 1)])
NPow7(k) == <<1>> \o Zeros(k)
=============================================================================
