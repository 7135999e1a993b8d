------------------------------- MODULE Motion -------------------------------
(* A particle moved by the velocity and position equations with arbitrary    *)
(* draws: what the trace clauses MoveOK and StepOK demand of every recorded  *)
(* move is implied by the equations.                                         *)
EXTENDS MotionOps, Sequences

CONSTANTS R, X, Coefs, MaxMoves, Lim,
          Fault   \* a planted mistake, or "none"
SomeCoefs == {<<4096, 4096, 8192>>, <<2048, 8192, 0>>, <<0, 4096, 4096>>, <<-4096, 6144, 2048>>}
VARIABLES x, v, co, lim, last, n
vars == <<x, v, co, lim, last, n>>
Unit == 64
Pos == {k * Unit : k \in -X..X}
Init == /\ x \in Pos /\ v \in Pos /\ co \in Coefs /\ lim \in {Lim * Unit, 500000}
        /\ last = <<>> /\ n = 0
(* rounding towards minus infinity to the scale *)
Move == /\ n < MaxMoves
        /\ \E p, g \in Pos, r1, r2 \in 0..(R - 1) :
             LET raw == Pull(co, v, p - x, g - x, r1, r2, R) \div (R * One)
                 v2 == IF Fault = "loose" THEN Clip(raw, -2 * lim, 2 * lim) ELSE IF Fault = "swap" THEN Clip(raw - 2 * v, -lim, lim) ELSE Clip(raw, -lim, lim)
             IN /\ v' = v2 /\ x' = (IF Fault = "late" THEN x + v ELSE x + v2)
                /\ last' = [m |-> <<v, v2, p - x, g - x, -lim, lim>>, p |-> <<x, v2, x'>>]
        /\ n' = n + 1 /\ UNCHANGED <<co, lim>>
Spec == Init /\ [][Move]_vars
MoveClauseHolds == last # <<>> => MoveOK(last.m, co) /\ StepOK(last.p)
Clamped == last # <<>> => -lim <= v /\ v <= lim
(* a particle at rest at both of its attractors stays there *)
RestStays == last # <<>> /\ last.m[1] = 0 /\ last.m[3] = 0 /\ last.m[4] = 0 => v = 0
=============================================================================
