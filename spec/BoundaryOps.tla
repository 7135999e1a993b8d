----------------------------- MODULE BoundaryOps -----------------------------
(* The boundary strategies on one particle. Coordinates are integers (the    *)
(* real coordinate times a common scale), bounds lb[d] < ub[d].              *)
EXTENDS Integers, Sequences, FiniteSets

Below(x, lb) == {d \in DOMAIN x : x[d] < lb[d]}
Above(x, ub) == {d \in DOMAIN x : x[d] > ub[d]}
Out(x, lb, ub) == Below(x, lb) \cup Above(x, ub)
Inside(x, lb, ub) == Out(x, lb, ub) = {}

Nearest1(x, l, u) == IF x < l THEN l ELSE IF x > u THEN u ELSE x

(* mirrored at the bounds until inside *)
Reflect1(x, l, u) == LET r == u - l
                         y == (x - l) % (2 * r)
                     IN IF y <= r THEN l + y ELSE l + 2 * r - y
RECURSIVE ReflectLoop(_, _, _)
ReflectLoop(x, l, u) == IF x < l THEN ReflectLoop(2 * l - x, l, u)
                        ELSE IF x > u THEN ReflectLoop(2 * u - x, l, u) ELSE x

Periodic1(x, l, u) == LET r == u - l
                      IN IF x < l THEN u - ((l - x) % r)
                         ELSE IF x > u THEN l + ((x - u) % r) ELSE x

(* twice the midpoint of the bound and the previous value *)
Intermediate2(x, m, l, u) == IF x < l THEN m + l ELSE IF x > u THEN m + u ELSE 2 * x

(* shrink: the fraction of the move at which the first bound is met, as      *)
(* numerator and positive denominator; <<1, 1>> for a particle inside        *)
Frac(x, m, l, u) == IF x < l THEN <<m - l, m - x>> ELSE IF x > u THEN <<u - m, x - m>> ELSE <<1, 1>>
Fracs(x, m, lb, ub) == {Frac(x[d], m[d], lb[d], ub[d]) : d \in Out(x, lb, ub)}
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Sigma(x, m, lb, ub) == LET F == Fracs(x, m, lb, ub)
                       IN IF F = {} THEN <<1, 1>> ELSE CHOOSE f \in F : \A g \in F : Leq(f, g)
(* the new coordinate times Sigma's denominator *)
Shrunk(x, m, s, d) == m[d] * s[2] + s[1] * (x[d] - m[d])
==============================================================================
