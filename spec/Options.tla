------------------------------- MODULE Options -------------------------------
(* Runs of an optimiser whose coefficient follows a schedule. Every value is *)
(* computed from the starting value; Fault = "compound" computes it from the *)
(* value in force, Fault = "keep" starts a run with the last run's value.    *)
EXTENDS OptionsOps, FiniteSets
CONSTANTS Starts, Ends, N, Runs, Strat, Fault
VARIABLES start, end, given, cur, i, run
vars == <<start, end, given, cur, i, run>>
Par == [p |-> 6, q |-> 5, d1 |-> Q \div 5, d2n |-> 7, d2d |-> 1]
Init == /\ start \in Starts /\ end \in Ends /\ given = start /\ cur = start /\ i = -1 /\ run = 1
From == CASE Fault = "compound" -> cur
          [] Fault = "keep" -> given
          [] OTHER -> start
Step == /\ i < N - 1 /\ i' = i + 1
        /\ IF Strat = "random"
           THEN cur' \in {Min : Min \in {start, end, (start + end) \div 2}}
           ELSE cur' = Value(Strat, From, end, i + 1, N, Par)
        /\ UNCHANGED <<start, end, given, run>>
Again == /\ i = N - 1 /\ run < Runs /\ run' = run + 1 /\ i' = -1
         /\ given' = IF Fault = "keep" THEN cur ELSE given
         /\ cur' = start
         /\ UNCHANGED <<start, end>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars
InForce == i >= 0 => Fits(Strat, start, end, i, N, Par, cur)
Between == (i >= 0 /\ Strat \in {"lin_variation", "nonlin_mod"}) =>
             /\ cur <= (IF start > end THEN start ELSE end) + 40
             /\ cur >= (IF start > end THEN end ELSE start) - 40
BeginsAtStart == (i = 0 /\ Strat \in {"lin_variation", "nonlin_mod"}) => AbsO(cur - start) <= 40
ASSUME AbsO(Exp(Q) - 2850325) < 30 /\ AbsO(Exp(Q \div 2) - 1728808) < 30 /\ Exp(0) = Q
ASSUME AbsO(Root(Q \div 32, 5) - Q \div 2) < 8 /\ Mul(3 * Q, -(Q \div 2)) = -((3 * Q) \div 2)
ASSUME AbsO(Power(Root(Q \div 2, 5), 6) - 456419) < 30   \* (1/2)^1.2
=============================================================================
