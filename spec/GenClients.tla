----------------------------- MODULE GenClients -----------------------------
(* Makes up histories for the code to follow, with the answers it has to     *)
(* give: run in TLC's simulation mode, each behaviour is written to a file.  *)
(* A history stays among a few related words, which differ little from each  *)
(* other, and has up to three iterators on the way.                          *)
EXTENDS H3Clients, SequencesExt, Json, IOUtils
CONSTANTS Length
VARIABLES no, pool, its, log
vars == << no, pool, its, log >>
Slots == 0..2

Sevens(a) == [i \in 1..7 |-> (a \div (<<1, 7, 49, 343, 2401, 16807, 117649>>[i])) % 7]
\* the deleted branch is left
Fix(c) == IF IsCell(c) THEN c
          ELSE LET i == CHOOSE i \in 1..Res(c) : c.ds[i] # 0 /\ \A j \in 1..(i - 1) : c.ds[j] = 0
               IN [c EXCEPT !.ds[i] = 2]
Other(c, i) == IF i = 0 \/ i > Res(c) THEN c ELSE Fix([c EXCEPT !.ds[i] = (@ + 1) % 7])
PentNo == [n \in 0..11 |-> CHOOSE b \in PentBases : Cardinality({e \in PentBases : e < b}) = n]

\* words around c
PoolOf(c, x, y) ==
  LET r == Res(c)
      d == 1 + (x % 6)
      e == 1 + (y % 6)
      kid == IF r < 15 THEN Fix([c EXCEPT !.ds = Append(@, y % 7)]) ELSE c
      dd == IF d \in Dirs(c) THEN d ELSE 3
      ee == IF e \in Dirs(c) THEN e ELSE 2
      fst == [i \in 1..r |-> IF i = 1 THEN 2 ELSE 0]
      w == WordOf(c)
  IN << w,
        WordOf(Move(c, dd).c),
        WordOf(Move(c, ee).c),
        WordOf(Other(c, r)),
        WordOf(Other(c, 1 + (x % (r + 1)))),
        WordOf(Fix([c EXCEPT !.bc = (c.bc + 1 + (y % 121)) % 122])),
        WordOf(IF r > 0 THEN AncestorAt(c, r - 1) ELSE c),
        WordOf(kid),
        WordOf(IF r < 15 THEN Other(kid, r + 1) ELSE c),
        WordOf([bc |-> PentNo[y % 12], ds |-> Zeros(r)]),
        WordOf([bc |-> PentNo[y % 12], ds |-> fst]),
        WordOf(Fix([c EXCEPT !.ds = Zeros(r)])) >>
\* the last four: edges, and words that name nothing
MoreOf(c, x) ==
  LET d == CHOOSE d \in Dirs(c) : \A e \in Dirs(c) : (x + d) % 7 >= (x + e) % 7
      w == WordOf(c)
  IN << EdgeWord(c, d), EdgeWord(Move(c, d).c, 2),
        [w EXCEPT ![(1 + (x % 20))] = 1 - (@ % 2)],
        [w EXCEPT ![2] = x % 16, ![3] = (x \div 16) % 8] >>
NCells == 12
NWords == 16

Init == no = 0 /\ pool = <<>> /\ its = [s \in Slots |-> NoIter] /\ log = <<>>
Numbers == 0..999999
Begin ==
  /\ pool = <<>>
  /\ \E a \in {RandomElement(Numbers)}, b \in {RandomElement(Numbers)}, x \in {RandomElement(Numbers)}, y \in {RandomElement(Numbers)} :
       LET ds == Sevens(a) \o Sevens(b) \o << x % 7 >>
           r == IF y % 3 = 0 THEN x % 16 ELSE x % 6
           zeros == IF y % 2 = 0 THEN 0 ELSE y % (r + 1)
           bc == IF y % 5 < 2 THEN PentNo[x % 12] ELSE x % 122
           c == Fix([bc |-> bc, ds |-> [i \in 1..r |-> IF i <= zeros THEN 0 ELSE ds[i]]])
       IN /\ pool' = PoolOf(c, x, y) \o MoreOf(c, b)
          /\ no' = a
  /\ UNCHANGED << its, log >>

Say(ev) == log' = Append(log, ev)
Calls == << "valid", "get", "pent", "size", "childpos", "children", "neighbor", "dirto", "disk", "fastdisk", "edge",
            "edgevalid", "edgeorigin", "edgedest", "edges", "back", "around", "bound" >>
CallEvent(n, x, y) ==
  LET op == Calls[n]
      any == pool[1 + (x % NWords)]
      w == pool[1 + (x % NCells)]
      z == pool[1 + (y % NCells)]
      e == pool[13 + (x % 2)]
      r == WRes(w)
      res == CASE y % 6 = 0 -> r - 1 [] y % 6 = 1 -> 15 [] y % 6 = 2 -> r [] OTHER -> r + 1 + (y % 2)
      few == IF r < 15 /\ res > r + 2 THEN r + 1 ELSE res
      pos == IF y % 4 = 0 THEN NumOf(y) ELSE NumOf(y % 60)
      d == 1 + (y % 6)
      k == y % 3
      c == CellOf(w)
  IN CASE op = "valid" -> [op |-> op, w |-> any] @@ Oks(IsCellWord(any))
       [] op = "get" -> LET f == <<"high", "mode", "reserved", "res", "base", "digit">>[1 + (y % 6)]
                        IN [op |-> op, w |-> any, f |-> f, r |-> 1 + (y % 15)] @@ Oks(GetField(any, f, 1 + (y % 15)))
       [] op = "pent" -> [op |-> op, w |-> w] @@ Oks(IsPent(c))
       [] op = "size" -> [op |-> op, w |-> w, res |-> res] @@ SizeAnswer(w, res)
       [] op = "childpos" -> [op |-> op, w |-> w, res |-> res, pos |-> pos, neg |-> FALSE] @@ ChildPosAnswer(w, res, pos)
       [] op = "children" -> [op |-> op, w |-> w, res |-> few] @@ ChildrenAnswer(w, few)
       [] op = "neighbor" -> LET dd == IF d \in Dirs(c) THEN d ELSE 5
                             IN [op |-> op, w |-> w, d |-> dd, n |-> 0, m |-> 0] @@ Oks(WordOf(Move(c, dd).c))
       [] op = "dirto" -> [op |-> op, w |-> w, z |-> z] @@ DirToAnswer(w, z)
       [] op = "disk" -> [op |-> op, w |-> w, k |-> k] @@ Oks(SetToSeq(BallPairs(c, k)))
       [] op = "fastdisk" -> IF PentWithin(c, k) THEN [op |-> op, w |-> w, k |-> k] @@ Errs("Pentagon")
                             ELSE LET ls == Layers(c, k)
                                  IN [op |-> op, w |-> w, k |-> k]
                                     @@ Oks(FlattenSeq([i \in 1..(k + 1) |-> SetToSeq({<<WordOf(h), i - 1>> : h \in ls[i]})]))
       [] op = "edge" -> [op |-> op, w |-> w, z |-> z] @@ EdgeAnswer(w, z)
       [] op = "edgevalid" -> [op |-> op, w |-> any] @@ Oks(IsEdgeWord(any))
       [] op = "edgeorigin" -> IF IsEdgeWord(e) THEN [op |-> op, w |-> e] @@ Oks(OriginWord(e))
                               ELSE [op |-> "valid", w |-> e] @@ Oks(IsCellWord(e))
       [] op = "edgedest" -> IF IsEdgeWord(e) THEN [op |-> op, w |-> e] @@ Oks(WordOf(EdgeDest(e)))
                             ELSE [op |-> "edgevalid", w |-> e] @@ Oks(IsEdgeWord(e))
       [] op = "edges" -> [op |-> op, w |-> w] @@ Oks(EdgeSlots(c))
       [] op = "back" -> [op |-> op, w |-> w, res |-> r, tol |-> 20] @@ Oks(w)
       [] op = "around" -> [op |-> op, w |-> w] @@ Oks(SetToSeq({WordOf(h) : h \in Neighbors(c)}))
       [] op = "bound" -> [op |-> op, k |-> NumOf(y), neg |-> FALSE] @@ Oks(DiskBound(NumOf(y)))

Make(s, x, y) ==
  LET w == pool[1 + (x % NCells)]
      res == IF y % 9 = 0 THEN WRes(w) - 1 ELSE IF y % 9 = 1 THEN 15 ELSE WRes(w) + (y % 3)
  IN /\ its' = [its EXCEPT ![s] = NewIter(w, res)]
     /\ Say([op |-> "iter", it |-> s, w |-> w, res |-> res, o |-> "ok"])
Ask(s, x, y) ==
  LET i == its[s]
  IN CASE x % 12 = 0 ->
            LET n == NumOf(y % 50)
            IN its' = [its EXCEPT ![s] = Advanced(Skipped(i, n))] /\ Say([op |-> "jump", it |-> s, n |-> n] @@ JumpAnswer(i, n))
       [] x % 12 = 1 /\ (i.done \/ Below(i) <= 3) ->
            its' = [its EXCEPT ![s] = NoIter] /\ Say([op |-> "left", it |-> s] @@ LeftAnswer(i))
       [] x % 12 = 2 /\ (i.done \/ Below(i) <= 3) ->
            its' = [its EXCEPT ![s] = NoIter] /\ Say([op |-> "last", it |-> s] @@ LastAnswer(i))
       [] x % 12 = 3 /\ (i.done \/ Below(i) <= 2) ->
            its' = [its EXCEPT ![s] = NoIter] /\ Say([op |-> "rest", it |-> s] @@ RestAnswer(i))
       [] x % 12 = 4 /\ y % 3 = 0 /\ (i.done \/ Below(i) <= 3) ->
            its' = [its EXCEPT ![s] = NoIter] /\ Say([op |-> "least", it |-> s] @@ LeastAnswer(i))
       [] OTHER -> its' = [its EXCEPT ![s] = Advanced(i)] /\ Say([op |-> "next", it |-> s] @@ NextAnswer(i))

Go == /\ pool # <<>> /\ Len(log) < Length
      /\ \E n \in {RandomElement(0..39)}, x \in {RandomElement(Numbers)}, y \in {RandomElement(Numbers)} :
           IF n < 18 THEN Say(CallEvent(n + 1, x, y)) /\ UNCHANGED its
           ELSE IF n < 22 THEN Make(x % 3, x \div 3, y)
           ELSE Ask(n % 3, x, y)
      /\ UNCHANGED << no, pool >>
Write == /\ Len(log) = Length
         /\ JsonSerialize(IOEnv.H3_RUNS \o "/" \o ToString(no) \o ".json", log)
         /\ log' = Append(log, [op |-> "end"]) /\ UNCHANGED << no, pool, its >>
Next == Begin \/ Go \/ Write
Spec == Init /\ [][Next]_vars

\* the answers made up are among those allowed
Allowed == log # <<>> =>
             LET ev == log[Len(log)]
             IN ev.op \in {"end", "iter", "next", "jump", "left", "last", "least", "rest"} \/ Accepts(ev)
\* the words of a pool are what they should be
Pooled == pool # <<>> => /\ \A i \in 1..NWords : IsWord(pool[i])
                         /\ \A i \in 1..NCells : IsCellWord(pool[i])
=============================================================================
