------------------------------ MODULE MotionOps ------------------------------
(* The motion of a particle in one dimension, on integers: coefficients are  *)
(* multiples of 1/One, everything else has a common scale.                   *)
EXTENDS Integers

(* the velocity equation with r1 and r2 in [0, 1), all numbers scaled *)
MinZ(a) == IF a < 0 THEN a ELSE 0
MaxZ(a) == IF a > 0 THEN a ELSE 0
AbsZ(a) == IF a < 0 THEN -a ELSE a
Clip(a, lo, hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
One == 4096
MoveOK(m, co) ==
  LET v == m[1]  v2 == m[2]  a == m[3]  b == m[4]  lo == m[5]  hi == m[6]
      L == co[1] * v + MinZ(co[2] * a) + MinZ(co[3] * b)
      U == co[1] * v + MaxZ(co[2] * a) + MaxZ(co[3] * b)
      tol == 4 * (AbsZ(co[1]) + AbsZ(co[2]) + AbsZ(co[3]) + One) + 4 * (AbsZ(v) + AbsZ(a) + AbsZ(b))
  IN /\ Clip(L, lo * One, hi * One) - tol <= v2 * One
     /\ v2 * One <= Clip(U, lo * One, hi * One) + tol
StepOK(p) == AbsZ(p[1] + p[2] - p[3]) <= 2


(* the equation itself for draws r1 / R and r2 / R, times One * R            *)
Pull(co, v, a, b, r1, r2, R) == R * co[1] * v + co[2] * r1 * a + co[3] * r2 * b
==============================================================================
