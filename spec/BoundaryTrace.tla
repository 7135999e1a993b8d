---------------------------- MODULE BoundaryTrace ----------------------------
(* Validates recorded calls of the real boundary handlers, made directly, by *)
(* the topologies and inside optimisation runs.                              *)
(* Lines: start (the positions a handler remembers), move (positions in and  *)
(* out), draw (a batch of draws of the random strategy).                     *)
EXTENDS BoundaryOps, TraceBase

VARIABLES l, mem, cnt
tvars == <<l, mem, cnt>>

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Near0(a, b) == IF a > b THEN a - b ELSE b - a
Bins == 8

(* one particle: proposed x, remembered m, returned y; tol is zero for       *)
(* exactly representable coordinates                                         *)
Right(e, x, m, y) ==
  LET lb == e.lb  ub == e.ub  tol == e.tol
  IN IF Inside(x, lb, ub) THEN y = x ELSE
     CASE e.strat = "nearest" -> \A d \in DOMAIN x : Near(y[d], Nearest1(x[d], lb[d], ub[d]), tol)
       [] e.strat = "reflective" -> \A d \in DOMAIN x :
            IF x[d] >= lb[d] /\ x[d] <= ub[d] THEN y[d] = x[d] ELSE Near(y[d], Reflect1(x[d], lb[d], ub[d]), tol)
       [] e.strat = "periodic" -> \A d \in DOMAIN x :
            IF x[d] >= lb[d] /\ x[d] <= ub[d] THEN y[d] = x[d]
            ELSE LET p == Periodic1(x[d], lb[d], ub[d])
                 IN Near(y[d], p, tol) \/ (tol > 0 /\ Near(Near0(y[d], p), ub[d] - lb[d], tol))
       [] e.strat = "intermediate" -> \A d \in DOMAIN x :
            IF x[d] >= lb[d] /\ x[d] <= ub[d] THEN y[d] = x[d]
            ELSE Near(2 * y[d], Intermediate2(x[d], m[d], lb[d], ub[d]), 2 * tol)
       [] e.strat = "shrink" ->
            LET s == Sigma(x, m, lb, ub)
            IN \A d \in DOMAIN x : Near(y[d] * s[2], Shrunk(x, m, s, d), (2 + 16 * tol) * s[2])
       [] OTHER -> TRUE     \* random: only inside, see FailsMove

InBounds(e, y) == \A d \in DOMAIN y : e.lb[d] <= y[d] /\ y[d] <= e.ub[d]

FailsMove(e) ==
  IF ~e.shape THEN {"C07.shape"} ELSE
  Must("C07.inside_unchanged", \A i \in DOMAIN e.x : Inside(e.x[i], e.lb, e.ub) => e.y[i] = e.x[i])
  \cup Must("C07." \o e.strat, \A i \in DOMAIN e.x :
              Right(e, e.x[i], IF mem = <<>> THEN e.x[i] ELSE mem[i], e.y[i]))
  \cup Must("C07.result_inside", \A i \in DOMAIN e.y : InBounds(e, e.y[i]))
  \cup Must("C06.handler", e.nob = 0)

(* random: y holds draws in bins 0..7 per dimension of the range, w whether  *)
(* each coordinate changed                                                   *)
Sq(a) == a * a
FailsDraw(e) ==
  LET n == Len(e.b)
      Count(d, k) == Cardinality({i \in 1..n : e.b[i][d] = k})
      Both(d, k, q) == Cardinality({i \in 1..n : e.b[i][d] = k /\ e.b[i][d + 1] = q})
      D == Len(e.b[1])
  IN Must("C07.random_inside", \A i \in 1..n : \A d \in 1..D : e.b[i][d] \in 0..(Bins - 1))
     \cup Must("C07.random_uniform", \A d \in 1..D : \A k \in 0..(Bins - 1) :
                 Sq(Count(d, k) * Bins - n) <= 49 * n * (Bins - 1))
     \cup Must("C07.random_axes", D = 1 \/ \A d \in 1..(D - 1) : \A k, q \in 0..(Bins - 1) :
                 Sq(Both(d, k, q) * Bins * Bins - n) <= 64 * n * (Bins * Bins))

Fails(e) == CASE e.k = "move" -> FailsMove(e)
              [] e.k = "draw" -> FailsDraw(e)
              [] e.k = "start" -> {}
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}

TraceInit == l = 0 /\ mem = <<>> /\ cnt = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1 /\ cnt' = cnt
             /\ LET e == Trace[l + 1]
                IN /\ Report(l + 1, Fails(e))
                   /\ mem' = CASE e.k = "start" -> e.mem
                                [] e.k = "move" -> e.y
                                [] OTHER -> mem
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
