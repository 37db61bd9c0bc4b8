------------------------------- MODULE MCAngle -------------------------------
(* Bringing an angle into range by whole turns, one turn at a time, with T   *)
(* ticks to the turn.                                                        *)
EXTENDS Integers, TLC
CONSTANTS T, Turns
VARIABLES given, angle, done
vars == << given, angle, done >>
Half == T \div 2
Init == given \in (-Turns * T)..(Turns * T) /\ angle = given /\ done = FALSE
Down == ~done /\ angle > Half /\ angle' = angle - T /\ UNCHANGED << given, done >>
Up == ~done /\ angle < -Half /\ angle' = angle + T /\ UNCHANGED << given, done >>
Stop == ~done /\ angle \in -Half..Half /\ done' = TRUE /\ UNCHANGED << given, angle >>
Next == Down \/ Up \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Same == (given - angle) % T = 0
InRange == done => angle \in -Half..Half
Kept == done /\ given \in -Half..Half => angle = given
Ends == <>done
=============================================================================
