----------------------------- MODULE MCClients -----------------------------
(* Iterators used side by side, in every interleaving: each yields its own   *)
(* parent's children, all of them, in order, whatever is done with the       *)
(* others in between.                                                        *)
EXTENDS H3Clients
CONSTANTS Both, Work
\* a pentagon and a hexagon, and others below them
WorkSet == { << [bc |-> 4, ds |-> <<>>], 1 >>, << [bc |-> 14, ds |-> <<0>>], 2 >>, << [bc |-> 0, ds |-> <<3>>], 1 >>,
             << [bc |-> 121, ds |-> <<0, 6>>], 0 >> }
WorkSetT == WorkSet \cup { << [bc |-> 97, ds |-> <<>>], 2 >>, << [bc |-> 14, ds |-> <<0, 1>>], 1 >>,
                           << [bc |-> 24, ds |-> Zeros(13)], 2 >>, << [bc |-> 7, ds |-> <<>>], 2 >> }
VARIABLES its, got, job
vars == << its, got, job >>
Init == /\ job \in [Both -> Work]
        /\ its = [s \in Both |-> NewIter(WordOf(job[s][1]), Res(job[s][1]) + job[s][2])]
        /\ got = [s \in Both |-> <<>>]
Take(s) == /\ ~its[s].done
           /\ got' = [got EXCEPT ![s] = Append(@, NextAnswer(its[s]).v)]
           /\ its' = [its EXCEPT ![s] = Advanced(its[s])]
           /\ UNCHANGED job
\* two further on
Hop(s) == /\ NLess(<<2>>, Remaining(its[s]))
          /\ JumpAnswer(its[s], <<2>>) = NextAnswer(Advanced(Advanced(its[s])))
          /\ Advanced(Skipped(its[s], <<2>>)) = Advanced(Advanced(Advanced(its[s])))
          /\ got' = [got EXCEPT ![s] = @ \o << NextAnswer(its[s]).v, NextAnswer(Advanced(its[s])).v, JumpAnswer(its[s], <<2>>).v >>]
          /\ its' = [its EXCEPT ![s] = Advanced(Skipped(its[s], <<2>>))]
          /\ UNCHANGED job
Next == \E s \in Both : Take(s) \/ Hop(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Both : WF_vars(Take(s))

Whole(s) == LET q == ChildrenSeq(job[s][1], job[s][2]) IN [i \in 1..Len(q) |-> WordOf(q[i])]
Own == \A s \in Both :
         LET q == Whole(s)
         IN /\ Len(got[s]) <= Len(q) /\ got[s] = SubSeq(q, 1, Len(got[s]))
            /\ Remaining(its[s]) = NumOf(Len(q) - Len(got[s]))
            /\ its[s].done <=> Len(got[s]) = Len(q)
            /\ ~its[s].done => /\ LastAnswer(its[s]).v = q[Len(q)] /\ LeastAnswer(its[s]).v = q[Len(got[s]) + 1]
                              /\ RestAnswer(its[s]).v = SubSeq(q, Len(got[s]) + 1, Len(q))
                              /\ HintOk(its[s], <<>>, <<-1>>)
Ends == <>(\A s \in Both : its[s].done)
=============================================================================
