----------------------------- MODULE BackendOps -----------------------------
(* What a loop written with the backend may rely on: operators read arrays   *)
(* and return new ones. An array, once somebody has it, keeps its content.   *)
EXTENDS Integers, Sequences, FiniteSets

(* nothing that was there before has changed (arrays are numbered by age)    *)
Kept(old, new) == Len(new) >= Len(old) /\ \A i \in DOMAIN old : new[i] = old[i]

Fields == {"position", "velocity", "pbest_pos", "pbest_cost", "best_pos", "current_cost"}
(* which fields of the swarm a step of the loop may replace                  *)
Writes(op) == CASE op = "eval" -> {"current_cost"}
                [] op = "pbest" -> {"pbest_pos", "pbest_cost"}
                [] op = "gbest" -> {"best_pos"}
                [] op = "velocity" -> {"velocity"}
                [] op = "position" -> {"position"}
                [] OTHER -> {}
(* the shape of a field: n particles, d dimensions                           *)
Shapes(f, n, d) == CASE f \in {"position", "velocity", "pbest_pos"} -> {<<n, d>>}
                     [] f \in {"pbest_cost", "current_cost"} -> {<<n>>}
                     [] f = "best_pos" -> {<<d>>, <<n, d>>}
(* what an operation needs to have been done before in the loop              *)
Ready(op, done) == CASE op = "pbest" -> "eval" \in done
                     [] op = "gbest" -> "pbest" \in done
                     [] op \in {"velocity"} -> "gbest" \in done
                     [] OTHER -> TRUE
Operations == {"eval", "pbest", "gbest", "velocity", "position", "keep"}
==============================================================================
