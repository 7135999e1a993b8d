----------------------------- MODULE VelocityOps -----------------------------
(* The velocity strategies and the clamp, on integers.                       *)
EXTENDS Integers, Sequences, FiniteSets

Clamp1(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
(* lo = <<>>: no clamp *)
Clamped(v, lo, hi) == IF lo = <<>> THEN v ELSE [d \in DOMAIN v |-> Clamp1(v[d], lo[d], hi[d])]
IsOut(x, lb, ub) == \E d \in DOMAIN x : x[d] < lb[d] \/ x[d] > ub[d]

(* zn / zd is the factor z; velocities are multiples of zd *)
Unmodified(v, lo, hi) == Clamped(v, lo, hi)
Invert(v, out, zn, zd, lo, hi) ==
  Clamped(IF out THEN [d \in DOMAIN v |-> -((zn * v[d]) \div zd)] ELSE v, lo, hi)
Zero(v, out, lo, hi) == Clamped(IF out THEN [d \in DOMAIN v |-> 0] ELSE v, lo, hi)
Adjust(v, x, m, lo, hi) == Clamped(IF m = <<>> THEN v ELSE [d \in DOMAIN v |-> x[d] - m[d]], lo, hi)
==============================================================================
