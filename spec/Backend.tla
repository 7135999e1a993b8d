------------------------------- MODULE Backend -------------------------------
(* A loop of one particle over a heap of arrays: operators allocate, the loop*)
(* stores what they return in the swarm, and keeps some of it as its history.*)
(* The particle moves on 0 .. Top; cost is the distance to Goal. The steps   *)
(* may come in any order in which they can be computed, on one or more       *)
(* swarms that start from the same arrays.                                   *)
EXTENDS BackendOps
CONSTANTS Swarms, Top, Goal, MaxOps, Fault
VARIABLES heap, born, ref, done, kept, ops, last
vars == <<heap, born, ref, done, kept, ops, last>>
Never == 99
AbsB(a) == IF a < 0 THEN -a ELSE a
Clip(x) == IF x < 0 THEN 0 ELSE IF x > Top THEN Top ELSE x

Init == /\ \E x \in 0..Top, v \in {-1, 0, 2} : heap = <<x, v, Never, Never>>
        /\ born = heap
        /\ ref = [s \in Swarms |-> [position |-> 1, velocity |-> 2, pbest_pos |-> 1, pbest_cost |-> 3, best_pos |-> 1, current_cost |-> 4]]
        /\ done = [s \in Swarms |-> {}] /\ kept = {} /\ ops = 0 /\ last = "none"

Val(s, f) == heap[ref[s][f]]
New(vs) == /\ heap' = heap \o vs /\ born' = born \o vs
At(i) == Len(heap) + i
Write(r, v) == /\ heap' = [heap EXCEPT ![r] = v] /\ born' = born

Eval(s) == /\ New(<<AbsB(Val(s, "position") - Goal)>>) /\ ref' = [ref EXCEPT ![s].current_cost = At(1)]
Pbest(s) ==
  LET better == Val(s, "current_cost") < Val(s, "pbest_cost")
  IN IF Fault = "alias" /\ better
     THEN /\ New(<<Val(s, "current_cost")>>)      \* hands out the position itself
          /\ ref' = [ref EXCEPT ![s].pbest_pos = ref[s].position, ![s].pbest_cost = At(1)]
     ELSE IF Fault = "masked" /\ better
     THEN /\ heap' = [heap EXCEPT ![ref[s].pbest_pos] = Val(s, "position")] \o <<Val(s, "current_cost")>> /\ born' = Append(born, Val(s, "current_cost"))
          /\ ref' = [ref EXCEPT ![s].pbest_cost = At(1)]
     ELSE /\ New(<<IF better THEN Val(s, "position") ELSE Val(s, "pbest_pos"), IF better THEN Val(s, "current_cost") ELSE Val(s, "pbest_cost")>>)
          /\ ref' = [ref EXCEPT ![s].pbest_pos = At(1), ![s].pbest_cost = At(2)]
Gbest(s) == /\ New(<<Val(s, "pbest_pos")>>) /\ ref' = [ref EXCEPT ![s].best_pos = At(1)]
Velocity(s) == \E r1, r2 \in {0, 1} :
  LET v == Clip(Val(s, "velocity") + r1 * (Val(s, "pbest_pos") - Val(s, "position")) + r2 * (Val(s, "best_pos") - Val(s, "position")) + 3) - 3
  IN /\ New(<<v>>) /\ ref' = [ref EXCEPT ![s].velocity = At(1)]
Position(s) ==
  LET x == Val(s, "position") + Val(s, "velocity")
  IN IF Fault \in {"inplace", "alias"} /\ (Fault = "alias" => x # Clip(x))   \* repairs where it stands
     THEN /\ Write(ref[s].position, Clip(x)) /\ UNCHANGED ref
     ELSE /\ New(<<Clip(x)>>) /\ ref' = [ref EXCEPT ![s].position = At(1)]
Keep(s) == kept' = kept \cup {<<ref[s].position, Val(s, "position")>>} /\ UNCHANGED <<heap, born, ref>>

Do(s, op) == CASE op = "eval" -> Eval(s) [] op = "pbest" -> Pbest(s) [] op = "gbest" -> Gbest(s)
               [] op = "velocity" -> Velocity(s) [] op = "position" -> Position(s) [] OTHER -> Keep(s)
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E s \in Swarms, op \in Operations :
             /\ Ready(op, done[s]) /\ Do(s, op) /\ last' = op
             /\ done' = [done EXCEPT ![s] = @ \cup {op}]
             /\ (op # "keep" => UNCHANGED kept)
Spec == Init /\ [][Next]_vars

NeverRewritten == heap = born
HistoryTrue == \A h \in kept : heap[h[1]] = h[2]
(* a step replaces what it is there for, in one swarm                        *)
OnlyItsFields == [][\A s \in Swarms, f \in Fields : ref'[s][f] # ref[s][f] => f \in Writes(last') /\ \A z \in Swarms \ {s} : ref'[z] = ref[z]]_vars
=============================================================================
