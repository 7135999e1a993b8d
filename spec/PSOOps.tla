------------------------------ MODULE PSOOps ------------------------------
(* Pure step functions of the optimisation loop. The design module PSO and   *)
(* the trace module PSOTrace both take their steps from here.                *)
(*                                                                           *)
(* Costs are integers: the exact cost times a scale, or the rank of the cost *)
(* among all costs of a trace. Not-a-number and the infinities are sentinels.*)
(* Positions are tokens: equal tokens, equal positions.                      *)
EXTENDS Integers, Sequences, FiniteSets, Functions
LOCAL INSTANCE TLC

Inf  == 1000000000
NInf == -1000000000
NaN  == -1999999999

IsFin(c) == c < Inf /\ c > NInf
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* A cost improves on another one: strictly, and never if it is no number.   *)
Better(c, old) == c # NaN /\ c < old

SeqMin(q) == FoldFunction(Min2, Inf, q)
SumSeq(q) == FoldFunction(LAMBDA a, b : a + b, 0, q)

(* ---- personal bests ---------------------------------------------------- *)
NextPbCost(c, pbc) == [i \in DOMAIN pbc |-> IF Better(c[i], pbc[i]) THEN c[i] ELSE pbc[i]]
NextPbTok(c, pbc, x, pbt) == [i \in DOMAIN pbc |-> IF Better(c[i], pbc[i]) THEN x[i] ELSE pbt[i]]

(* ---- neighbourhood bests ------------------------------------------------ *)
(* nb[i] is the set of neighbours of i. The attractors that are allowed for  *)
(* a particle: the personal bests of its best neighbours.                    *)
BestOf(nb, pbc) == {j \in nb : \A k \in nb : pbc[j] <= pbc[k]}
Attractors(nb, pbc, pbt) == {pbt[j] : j \in BestOf(nb, pbc)}

(* The k nearest of particle i given the ranks of the distances to all       *)
(* particles: everybody nearer than the k-th, itself, and a choice among     *)
(* those at the k-th distance.                                               *)
Kth(dr, k) == SortSeq(dr, <)[k]
Sure(i, dr, k) == LET r == Kth(dr, k) IN {j \in DOMAIN dr : dr[j] < r} \cup {i}
Tied(i, dr, k) == LET r == Kth(dr, k) IN {j \in DOMAIN dr : dr[j] = r} \ {i}
IsNearest(S, i, dr, k) == /\ Cardinality(S) = k
                          /\ Sure(i, dr, k) \subseteq S
                          /\ S \subseteq Sure(i, dr, k) \cup Tied(i, dr, k)
(* who can be the best of some legal choice of nearest neighbours *)
CanBeBest(i, dr, k, pbc) ==
  LET S == Sure(i, dr, k)
      T == Tied(i, dr, k)
      slots == k - Cardinality(S)
      low == SeqMin([q \in S |-> pbc[q]])
  IN {j \in S \cup (IF slots >= 1 THEN T ELSE {}) :
        pbc[j] <= low /\ Cardinality({t \in T : pbc[t] >= pbc[j]}) >= slots}
RingAttractors(i, dr, k, pbc, pbt) == {pbt[j] : j \in CanBeBest(i, dr, k, pbc)}

(* ---- early stopping ------------------------------------------------------ *)
(* The best cost changed by less than num/den * (1 + |old|); one is `scale`. *)
Small(new, old, num, den, scale) ==
  /\ num >= 0 /\ IsFin(new) /\ IsFin(old)
  /\ Abs(new - old) * den < num * (scale + Abs(old))
NextStreak(streak, first, new, old, num, den, scale) ==
  IF ~first /\ Small(new, old, num, den, scale) THEN streak + 1 ELSE 0

(* ---- histories ----------------------------------------------------------- *)
MeanTimesN(pbc) ==
  LET S == {pbc[i] : i \in DOMAIN pbc}
  IN IF Inf \in S /\ NInf \in S THEN NaN
     ELSE IF Inf \in S THEN Inf
     ELSE IF NInf \in S THEN NInf
     ELSE SumSeq(pbc)
=============================================================================
