------------------------------- MODULE Binary -------------------------------
(* A binary particle of two dimensions. Its velocity is arbitrary; each bit  *)
(* of the next position is drawn by the logistic law of the new velocity.    *)
(* Ones and Both count, over all draws, how often bits become one.           *)
EXTENDS BinaryOps, FiniteSets

CONSTANTS R, Vels, MaxMoves, Fault
VARIABLES x, v, old, n
vars == <<x, v, old, n>>
U == 0..(R - 1)
D == 1..2
Levels == {-256, -64, -8, 0, 24, 128, 640}
(* the logistic law and the bits, once for all *)
Sig == [a \in Vels |-> Logistic(a)]
BitTable == [a \in Vels, u \in U |-> Bit(a, u, R)]
B(a, u) == BitTable[a, u]
(* how the bits come from the velocities and the draws; the planted faults   *)
(* share one draw, use the velocity of before, or do not end in bits         *)
Next2(nv, ov, u) ==
  [d \in D |-> CASE Fault = "shared" -> B(nv[d], u[1])
                 [] Fault = "stale" -> B(ov[d], u[d])
                 [] Fault = "mirrored" -> 1 - B(nv[d], u[d])
                 [] Fault = "moved" -> B(nv[d], u[d]) + (IF nv[d] > 512 THEN 1 ELSE 0)
                 [] OTHER -> B(nv[d], u[d])]
Init == /\ x = [d \in D |-> 0] /\ v \in [D -> Vels] /\ old = v /\ n = 0
Move == /\ n < MaxMoves
        /\ \E nv \in [D -> Vels], u \in [D -> U] :
             /\ x' = Next2(nv, v, u) /\ v' = nv /\ old' = v
        /\ n' = n + 1
Spec == Init /\ [][Move]_vars
StaysBinary == \A d \in D : x[d] \in {0, 1}
(* the law, over all draws *)
Draws2 == {<<a, b>> : a \in U, b \in U}
Ones(d) == Cardinality({u \in Draws2 : Next2(v, old, u)[d] = 1})
Both == Cardinality({u \in Draws2 : Next2(v, old, u) = [d \in D |-> 1]})
Near(c, total, p) == AbsB(c * P14 - total * p) <= (total \div R) * P14
Law == n > 0 => \A d \in D : Near(Ones(d), R * R, Sig[v[d]])
Independent == n > 0 => Both * R * R = Ones(1) * Ones(2)
(* the logistic function itself *)
Symmetric == \A a \in 0..1100 : AbsB(Logistic(a) + Logistic(-a) - P14) <= 1
Monotone == \A a \in -1100..1100 : Logistic(a) <= Logistic(a + 1) + 1
Known == Logistic(0) = P14 \div 2 /\ AbsB(Logistic(64) - 11978) <= 4 /\ AbsB(Logistic(-128) - 1953) <= 4 /\ Logistic(2000) = P14
ASSUME Symmetric /\ Monotone /\ Known
=============================================================================
