------------------------------ MODULE Velocity ------------------------------
(* A velocity handler over a run of one particle in D dimensions.            *)
EXTENDS VelocityOps

CONSTANTS D, V, X, B, C, MaxCalls,
          Fault   \* a planted mistake, or "none"
Strategies == {"unmodified", "invert", "zero", "adjust"}
VARIABLES strategy, clamp, pos, given, got, mem, n
vars == <<strategy, clamp, pos, given, got, mem, n>>
Lb == [d \in 1..D |-> -B]
Ub == [d \in 1..D |-> B]
None == <<>>
Clamps == {<<None, None>>} \cup {<<[d \in 1..D |-> -a], [d \in 1..D |-> b]>> : a, b \in {0, C}}
Vels == [1..D -> {2 * k : k \in -V..V}]
Poss == [1..D -> -X..X]

Init == /\ strategy \in Strategies /\ clamp \in Clamps
        /\ pos = [d \in 1..D |-> 0] /\ given = pos /\ got = pos /\ mem = <<None, None>> /\ n = 0
Call == /\ n < MaxCalls
        /\ \E v \in Vels, x \in Poss :
             /\ given' = v /\ pos' = x
             /\ got' = CASE strategy = "unmodified" /\ Fault # "lower" -> Unmodified(v, clamp[1], clamp[2])
                         [] strategy = "invert" /\ Fault = "outer" -> [d \in 1..D |-> IF x[d] < Lb[d] \/ x[d] > Ub[d] THEN -(v[d] \div 2) ELSE v[d]]
                         [] strategy = "invert" -> Invert(v, IsOut(x, Lb, Ub), 1, 2, clamp[1], clamp[2])
                         [] strategy = "zero" /\ Fault = "above" -> Zero(v, \E d \in 1..D : x[d] > Ub[d], clamp[1], clamp[2])
                         [] strategy = "unmodified" -> IF clamp[1] = None THEN v ELSE [d \in 1..D |-> IF v[d] < clamp[1][d] THEN clamp[1][d] ELSE v[d]]
                         [] strategy = "adjust" /\ Fault = "first" -> Adjust(v, x, mem[1], clamp[1], clamp[2])
                         [] strategy = "zero" -> Zero(v, IsOut(x, Lb, Ub), clamp[1], clamp[2])
                         [] OTHER -> Adjust(v, x, mem[2], clamp[1], clamp[2])
             /\ mem' = <<mem[2], x>>
        /\ n' = n + 1 /\ UNCHANGED <<strategy, clamp>>
Spec == Init /\ [][Call]_vars

(* C08 *)
RespectsClamp == n > 0 /\ clamp[1] # None => \A d \in 1..D : clamp[1][d] <= got[d] /\ got[d] <= clamp[2][d]
ClampKeepsInside == n > 0 /\ strategy = "unmodified" /\ clamp[1] # None =>
   \A d \in 1..D : (clamp[1][d] <= given[d] /\ given[d] <= clamp[2][d]) => got[d] = given[d]
(* C09 *)
OthersAlone == n > 0 /\ clamp[1] = None /\ strategy \in {"invert", "zero"} /\ ~IsOut(pos, Lb, Ub) => got = given
InvertsOnce == n > 0 /\ clamp[1] = None /\ strategy = "invert" /\ IsOut(pos, Lb, Ub) => \A d \in 1..D : 2 * got[d] = -given[d]
ZeroesAll == n > 0 /\ strategy = "zero" /\ IsOut(pos, Lb, Ub) => \A d \in 1..D : got[d] = 0
AdjustIsTheMove == n > 1 /\ clamp[1] = None /\ strategy = "adjust" => \A d \in 1..D : got[d] = mem[2][d] - mem[1][d]
=============================================================================
