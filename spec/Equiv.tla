-------------------------------- MODULE Equiv --------------------------------
(* Two searches side by side, under the same draws, whose configurations are *)
(* said to be equivalent: a fully connected swarm and a ring that holds      *)
(* everybody; costs and strictly increasing images of costs; a problem and   *)
(* the same problem in other units; personal bests attract alike in a loop   *)
(* that renews the best only when it got better. Where the search must be    *)
(* the same, it is, step by step; where it need not be (ties between a ring  *)
(* and a star, or between the loop and the optimiser) the condition that     *)
(* makes it the same is named.                                               *)
(* Fault plants one of the mistakes that would tell the two apart.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Top, Steps, Kinds, Ties, Fault

VARIABLES kind, cost, A, B, t
vars == <<kind, cost, A, B, t>>
Never == 1000000      \* the cost of a best that does not exist yet
I == 1..N
Grid == 0..Top

AbsE(a) == IF a < 0 THEN -a ELSE a
(* ---- one search: its unit, the image of its costs, how it finds its best -- *)
Unit(s) == IF kind = "units" /\ s = "B" THEN 2 ELSE 1
Image(s, c) == IF c = Never THEN c ELSE IF kind = "costs" /\ s = "B" THEN c * c * c - 5 ELSE c
Ring(s) == kind = "ring" /\ s = "B"
Loop(s) == kind = "loop" /\ s = "B"
Where(s, x) == x \div Unit(s)
Score(s, x) == Image(s, cost[Where(s, x)])

First(S, c) == CHOOSE i \in S : /\ \A j \in S : c[i] <= c[j]
                                /\ \A j \in S : c[j] = c[i] => i <= j
(* the nearest first, and among them the one with the lowest cost            *)
Near(i, j, x) == <<AbsE(x[i] - x[j]), j>>
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
FirstNear(i, x, c) == CHOOSE j \in I : /\ \A q \in I : c[j] <= c[q]
                                       /\ \A q \in I : c[q] = c[j] => Lex(Near(i, j, x), Near(i, q, x))
Better(c, old) == IF Fault = "margin" THEN c < old - 1 ELSE c < old

(* ---- the repair of a position: periodic, in the units of the search ------- *)
Repair(x, u) ==
  LET eps == IF Fault = "epsilon" THEN 1 ELSE 0
      lo == 0  hi == Top * u
  IN IF x < lo THEN hi - ((lo - x) % hi) ELSE IF x > hi THEN lo + eps + ((x - hi) % hi) ELSE x
Clamp(v, u) == IF v > 2 * u THEN 2 * u ELSE IF v < -2 * u THEN -2 * u ELSE v

Move(s, S, r) ==
  LET c == [i \in I |-> Score(s, S.x[i])]
      up == [i \in I |-> S.pc[i] = Never \/ Better(c[i], S.pc[i])]
      px == [i \in I |-> IF up[i] THEN S.x[i] ELSE S.px[i]]
      pc == [i \in I |-> IF up[i] THEN c[i] ELSE S.pc[i]]
      g == First(I, pc)
      \* the loop keeps its best until a personal best is lower
      keep == Loop(s) /\ S.bc # Never /\ ~(pc[g] < S.bc)
      best == IF keep THEN S.best ELSE px[g]
      att == [i \in I |-> IF Ring(s) THEN px[FirstNear(i, S.x, pc)] ELSE best]
      v == [i \in I |-> Clamp(S.v[i] + r[i][1] * (px[i] - S.x[i]) + r[i][2] * (att[i] - S.x[i]), Unit(s))]
      x == [i \in I |-> Repair(S.x[i] + v[i], Unit(s))]
  IN [x |-> x, v |-> v, px |-> px, pc |-> pc, best |-> best, bc |-> pc[g]]

Start(x, v, u) == [x |-> [i \in I |-> u * x[i]], v |-> [i \in I |-> u * v[i]], px |-> [i \in I |-> u * x[i]],
                   pc |-> [i \in I |-> Never], best |-> 0, bc |-> Never]
Costs == {c \in [Grid -> 1..(Top + 1)] : Ties \/ \A a, b \in Grid : a # b => c[a] # c[b]}
Init == /\ kind \in Kinds /\ t = 0
        /\ cost \in Costs
        /\ \E x \in [I -> Grid], v \in [I -> {0, 1}] :
             A = Start(x, v, 1) /\ B = Start(x, v, IF kind = "units" THEN 2 ELSE 1)
Draws == {<<0, 1>>, <<1, 0>>, <<1, 1>>}
Next == /\ t < Steps /\ t' = t + 1
        /\ \E r \in [I -> Draws] : A' = Move("A", A, r) /\ B' = Move("B", B, r)
        /\ UNCHANGED <<kind, cost>>
Spec == Init /\ [][Next]_vars

(* the same search: the same points in the same order, the same bests        *)
SameMoves == \A i \in I : B.x[i] = Unit("B") * A.x[i] /\ B.v[i] = Unit("B") * A.v[i] /\ B.px[i] = Unit("B") * A.px[i]
SameBests == t > 0 => /\ \A i \in I : B.pc[i] = Image("B", A.pc[i])
                      /\ B.bc = Image("B", A.bc)
=============================================================================
