------------------------------- MODULE PlotOps -------------------------------
(* What plots show.                                                          *)
EXTENDS Integers, Sequences
Abs2(a) == IF a < 0 THEN -a ELSE a
(* the points of one axis of a mesh: from the lower limit on in steps of     *)
(* delta to the last one before the upper limit (rounding may include it)    *)
AxisOK(v, lo, hi, delta, eps) ==
  /\ Len(v) > 0 /\ Abs2(v[1] - lo) <= eps
  /\ \A k \in 1..(Len(v) - 1) : Abs2(v[k + 1] - v[k] - delta) <= eps
  /\ v[Len(v)] <= hi + eps /\ v[Len(v)] + delta >= hi - eps
(* frame i shows the swarm of iteration i                                    *)
FramesOK(frames, pos) == Len(frames) = Len(pos) /\ \A i \in DOMAIN pos : \E q \in DOMAIN frames[i] : frames[i][q] = pos[i]
(* values at points, both as tokens                                          *)
Graph(points, values) == {<<points[i], values[i]>> : i \in DOMAIN points}
==============================================================================
