---------------------------- MODULE GeneratorOps ----------------------------
(* What a generated swarm looks like and which requests are refused.         *)
EXTENDS Integers, Sequences, FiniteSets

Inside(q) == q[1] <= q[3] /\ q[3] <= q[2]                 \* <<low, high, value>>
IsPermutation(row) == {row[i] : i \in DOMAIN row} = 0..(Len(row) - 1)
IsBinary(row) == \A i \in DOMAIN row : row[i] \in {0, 1}

(* A request: n, d; the lengths of the bounds and of the clamp (-1: none);   *)
(* the shape of the explicit positions (<<>>: none) and where their worst    *)
(* value lies: "in", "edge", "below", "above", "nan" or "fraction".          *)
Fits(len, d) == len \in {-1, d}
(* a single bound for several dimensions is left open                        *)
Open(r) == r.d > 1 /\ (r.lb = 1 \/ r.ub = 1 \/ r.clamp = 1)
Refused(r) ==
  \/ ~Fits(r.lb, r.d) \/ ~Fits(r.ub, r.d) \/ ~Fits(r.clamp, r.d)
  \/ r.init # <<>> /\ r.init # <<r.n, r.d>>
  \/ r.init # <<>> /\ r.kind = "cont" /\ r.lb # -1 /\ r.where \in {"below", "above", "nan"}
  \/ r.init # <<>> /\ r.kind = "binary" /\ r.where \in {"below", "above", "nan", "fraction"}
==============================================================================
