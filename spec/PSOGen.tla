------------------------------- MODULE PSOGen -------------------------------
(* Enumerates objectives as tables (what the objective answers to particle i *)
(* in iteration t) and prints with each the behaviour the specification      *)
(* prescribes, for replay on the real optimisers.                            *)
EXTENDS PSOOps, TLC, Json

CONSTANTS N, T, Costs, F, Num, Den, Scale, Sample
AllCosts == {0, 1, Inf, NaN}
FourCosts == {-1, 0, 1, Inf, NaN, NInf}
StepCosts == {0, 1, 2, 3}
NoTol == -1
SignedCosts == {-9, -8, -1, 0, 1, 7}
VARIABLES tab, b
vars == <<tab, b>>

(* tab[t][i]; personal bests are remembered by the iteration they come from  *)
Start == [pbc |-> [i \in 1..N |-> Inf], at |-> [i \in 1..N |-> 0], best |-> Inf,
          streak |-> 0, steps |-> <<>>, stopped |-> FALSE]
StepOf(s, c, t) ==
  LET pbc == NextPbCost(c, s.pbc)
      at == NextPbTok(c, s.pbc, [i \in 1..N |-> t], s.at)
      best == SeqMin(pbc)
      k == NextStreak(s.streak, t = 1, best, s.best, Num, Den, Scale)
  IN IF s.stopped THEN s ELSE
     [pbc |-> pbc, at |-> at, best |-> best, streak |-> k, stopped |-> k >= F,
      steps |-> Append(s.steps, [pbc |-> pbc, at |-> at, best |-> best, m |-> MeanTimesN(pbc)])]
RECURSIVE Fold(_, _)
Fold(q, t) == IF t = 0 THEN Start ELSE StepOf(Fold(q, t - 1), q[t], t)

Init == tab = <<>> /\ b = Start
Next == /\ Len(tab) < T
        /\ \E c \in [1..N -> Costs] :
             /\ tab' = Append(tab, c)
             /\ b' = StepOf(b, c, Len(tab) + 1)
Spec == Init /\ [][Next]_vars
(* the specification's own promises for the generated behaviours *)
Answered == {tab[t][i] : t \in 1..Len(b.steps), i \in 1..N} \ {NaN}
BestIsLowest == tab # <<>> => b.best = (IF Answered = {} THEN Inf ELSE SeqMin([a \in Answered |-> a]))
Emit == Len(tab) = T =>
  PrintT(<<"CASE", ToJson([c |-> tab, steps |-> b.steps, n |-> Len(b.steps)])>>)
=============================================================================
