----------------------------- MODULE BinaryTrace -----------------------------
(* Judges bits that real optimisers drew together with their velocities.     *)
EXTENDS BinaryOps, TraceBase, SequencesExt
VARIABLE l
(* the law in 1 / 4096, once for all velocities on the grid *)
Most == 1100
Law4 == [a \in -Most..Most |-> (Logistic(a) + 2) \div 4]
P4(a) == IF a > Most THEN 4096 ELSE IF a < -Most THEN 0 ELSE Law4[a]
(* an event: one or two velocities, and whether all of these bits are one    *)
Prob(vs) == IF Len(vs) = 1 THEN P4(vs[1]) ELSE (P4(vs[1]) * P4(vs[2]) + 2048) \div 4096
Sums(e) == FoldLeft(LAMBDA acc, i : LET p == Prob(e.v[i])
                                    IN <<acc[1] + e.b[i], acc[2] + p, acc[3] + (p * (4096 - p)) \div 4096>>,
                    <<0, 0, 0>>, [i \in 1..Len(e.b) |-> i])
FailsLaw(e) ==
  LET s == Sums(e)
      dev == AbsB(s[1] * 4096 - s[2]) \div 64
      \* seven standard deviations, and what rounding may add up to and rare events
  IN Must(e.clause, Len(e.b) > 0 /\ dev <= 40000 /\ dev * dev <= 60 * s[3] + 64 * (40 + Len(e.b) \div 32) * (40 + Len(e.b) \div 32))
(* bits with velocity -m that are one, and with velocity m that are zero     *)
FailsRare(e) == LET mean == RareMean(e.m, e.total)
                    dev == AbsB(e.count - mean)
                IN Must("C16.rare", e.total > 0 /\ dev <= 40000 /\ dev * dev <= 60 * mean + 100)
Fails(e) == CASE e.k = "rare" -> FailsRare(e)
              [] e.k = "law" -> FailsLaw(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
