-------------------------------- MODULE PSO --------------------------------
(* The optimisation loop as an abstract machine: an adversarial objective    *)
(* chooses the costs, an adversary chooses the legal neighbourhoods, runs    *)
(* are repeated, reset, and fail at any evaluation.                          *)
(* One action per step of the loop of the implementation.                    *)
EXTENDS PSOOps, SequencesExt

CONSTANTS N,         \* particles
          MaxIter,   \* iteration limit of a run
          MaxRuns,   \* runs and resets in a history
          Costs,     \* what the objective can answer
          K,         \* neighbourhood size (N: fully connected)
          F, Num, Den, Scale,   \* convergence window and tolerance
          CanFail,   \* the objective may raise
          Fault      \* a planted mistake, or "none": every property can be broken

P == 1..N
AllCosts == {0, 1, Inf, NaN}
FewCosts == {0, 1, NaN}
StepCosts == {0, 1, 2}
VARIABLES phase, ops, it, x, gen, cost, pbc, pbt, best, prevbest, att, streak,
          hist, evals, base, result
vars == <<phase, ops, it, x, gen, cost, pbc, pbt, best, prevbest, att, streak,
          hist, evals, base, result>>

Swarm(g) == [i \in P |-> g * 10 + i]
NoCost == [i \in P |-> Inf]

Init == /\ phase = "idle" /\ ops = 0 /\ it = 0 /\ gen = 0
        /\ x = Swarm(0) /\ cost = NoCost /\ pbc = NoCost /\ pbt = Swarm(0)
        /\ best = Inf /\ prevbest = Inf /\ att = Swarm(0) /\ streak = 0
        /\ hist = <<>> /\ evals = {} /\ base = 0 /\ result = <<>>

Begin == /\ phase \in {"idle", "done", "failed"} /\ ops < MaxRuns
         /\ ops' = ops + 1 /\ phase' = "eval" /\ it' = 0
         /\ (IF Fault = "carry" THEN UNCHANGED pbc ELSE pbc' = NoCost) /\ best' = Inf
         /\ streak' = 0
         /\ evals' = {} /\ base' = Len(hist) /\ result' = <<>>
         /\ UNCHANGED <<x, gen, cost, pbt, prevbest, att, hist>>

Reset == /\ phase \in {"done", "failed"} /\ ops < MaxRuns
         /\ ops' = ops + 1 /\ phase' = "idle" /\ gen' = gen + 1
         /\ x' = Swarm(gen + 1) /\ pbt' = Swarm(gen + 1) /\ pbc' = NoCost
         /\ best' = Inf /\ hist' = <<>> /\ base' = 0
         /\ evals' = {} /\ result' = <<>>
         /\ UNCHANGED <<it, cost, prevbest, att, streak>>

Evaluate == /\ phase = "eval"
            /\ cost' \in [P -> Costs]
            /\ evals' = evals \cup {<<x[i], cost'[i]>> : i \in P}
            /\ phase' = "pbest"
            /\ UNCHANGED <<ops, it, x, gen, pbc, pbt, best, prevbest, att, streak, hist, base, result>>

Raise == /\ CanFail /\ phase = "eval" /\ phase' = "failed"
         /\ hist' = (IF Fault = "half" THEN Append(hist, [x |-> x, c |-> best, m |-> 0]) ELSE hist)
         /\ UNCHANGED <<ops, it, x, gen, cost, pbc, pbt, best, prevbest, att, streak, evals, base, result>>

UpdatePbest == /\ phase = "pbest" /\ phase' = "gbest"
               /\ pbc' = (IF Fault = "last" THEN [i \in P |-> IF cost[i] = NaN THEN pbc[i] ELSE cost[i]] ELSE NextPbCost(cost, pbc))
               /\ pbt' = NextPbTok(cost, pbc, x, pbt)
               /\ UNCHANGED <<ops, it, x, gen, cost, best, prevbest, att, streak, hist, evals, base, result>>

Neighbourhoods == IF K = N THEN {[i \in P |-> P]}
                  ELSE [P -> {S \in SUBSET P : Cardinality(S) = K}]
UpdateBest == /\ phase = "gbest" /\ phase' = "record"
              /\ prevbest' = best
              /\ \E nb \in Neighbourhoods :
                   /\ \A i \in P : i \in nb[i]
                   /\ \E a \in [P -> P] :
                        /\ \A i \in P : a[i] \in (IF Fault = "any" THEN nb[i] ELSE BestOf(nb[i], pbc))
                        /\ att' = [i \in P |-> pbt[a[i]]]
                        /\ best' = SeqMin([i \in P |-> pbc[a[i]]])
              /\ UNCHANGED <<ops, it, x, gen, cost, pbc, pbt, streak, hist, evals, base, result>>

Record == /\ phase = "record" /\ phase' = "check"
          /\ hist' = LET h == Append(hist, [x |-> x, c |-> best, m |-> MeanTimesN(pbc)])
                     IN IF Fault = "rewrite" /\ Len(hist) > 0 THEN [h EXCEPT ![Len(hist)].x = x] ELSE h
          /\ streak' = NextStreak(streak, it = 0, best, prevbest, Num, Den, Scale)
          /\ UNCHANGED <<ops, it, x, gen, cost, pbc, pbt, best, prevbest, att, evals, base, result>>

Finish == result' = <<best, pbt[CHOOSE i \in P : pbc[i] = SeqMin(pbc)]>>

Stop == /\ phase = "check" /\ (streak >= F \/ (Fault = "window" /\ streak > 0)) /\ phase' = "done" /\ Finish
        /\ UNCHANGED <<ops, it, x, gen, cost, pbc, pbt, best, prevbest, att, streak, hist, evals, base>>

Move == /\ phase = "check" /\ streak < F
        /\ gen' = (IF Fault = "still" THEN gen ELSE gen + 1) /\ x' = Swarm(gen') /\ it' = it + 1
        /\ IF it + 1 = MaxIter THEN phase' = "done" /\ Finish
                               ELSE phase' = "eval" /\ UNCHANGED result
        /\ UNCHANGED <<ops, cost, pbc, pbt, best, prevbest, att, streak, hist, evals, base>>

Next == Begin \/ Reset \/ Evaluate \/ Raise \/ UpdatePbest \/ UpdateBest \/ Record \/ Stop \/ Move
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Evaluate \/ UpdatePbest \/ UpdateBest \/ Record \/ Stop \/ Move)

(* ------------------------------ properties ------------------------------- *)
Numbers == {e \in evals : e[2] # NaN}
Lowest == IF Numbers = {} THEN Inf ELSE SeqMin([e \in Numbers |-> e[2]])

(* C01 *)
ResultIsBest == phase = "done" =>
   /\ result[1] = Lowest
   /\ result[1] < Inf => <<result[2], result[1]>> \in evals
(* C02: own tokens are gen * 10 + i, so the particle of a token is visible *)
Own(i) == {e \in Numbers : e[1] % 10 = i}
PbestIsOwnBest == phase \in {"gbest", "record", "check", "done"} =>
   \A i \in P : /\ pbt[i] % 10 = i
                /\ pbc[i] = IF Own(i) = {} THEN Inf ELSE SeqMin([e \in Own(i) |-> e[2]])
                /\ pbc[i] < Inf => <<pbt[i], pbc[i]>> \in evals
(* C03 *)
BestIsBest == phase \in {"record", "check", "done"} =>
   /\ best = SeqMin(pbc)
   /\ \A i \in P : \E j \in P : att[i] = pbt[j] /\ pbc[j] <= pbc[i]
(* C11 *)
HistoryFaithful ==
   /\ \A k \in DOMAIN hist : k > base + 1 => hist[k].c <= hist[k - 1].c
   /\ phase = "done" => hist[Len(hist)].c = result[1]
   /\ phase \in {"check", "done"} => \A i \in P : hist[Len(hist)].x[i] \in {e[1] : e \in evals}
HistoryAppendOnly == [][IsPrefix(hist, hist') \/ (hist' = <<>> /\ phase' = "idle")]_vars
(* C12, stated over the recorded history rather than by the streak *)
Iters == Len(hist) - base
SmallAt(k) == Small(hist[base + k].c, hist[base + k - 1].c, Num, Den, Scale)
WindowAt(k) == k > F /\ \A q \in (k - F + 1)..k : SmallAt(q)
StopsExactly == phase = "done" =>
   /\ \A k \in 1..(Iters - 1) : ~WindowAt(k)
   /\ Iters < MaxIter => WindowAt(Iters)
   /\ Iters <= MaxIter
(* C13 *)
Budget == phase = "done" => Cardinality({e[1] : e \in evals}) = N * Iters
(* C25 *)
FailedRunRecordsCompleted == phase = "failed" => Iters = it
PbestMonotone == [][phase' = "gbest" => \A i \in P : pbc'[i] <= pbc[i]]_vars
BestMonotone == [][phase' = "record" => best' <= best]_vars
(* Every run ends *)
Terminates == [](phase = "eval" => <>(phase \in {"done", "failed"}))
=============================================================================
