----------------------------- MODULE DrawsTrace -----------------------------
(* Judges random draws recovered from the real code: their range, their      *)
(* distribution and their independence. The thresholds are beyond seven      *)
(* standard deviations of the specified distribution.                        *)
EXTENDS TraceBase

VARIABLE l
AbsD(a) == IF a < 0 THEN -a ELSE a
Sq(a) == a * a
One == 4096
(* c of n events of probability p / One *)
Plausible(c, n, p) ==
  LET dev == AbsD(c * One - n * p) \div 64
      var == n * ((p * (One - p)) \div One)       \* One times the variance
  IN dev <= 40000 /\ Sq(dev) <= 60 * var + 64 * Sq(10)

Count(b, k) == Cardinality({i \in DOMAIN b : b[i] = k})
FailsHist(e) == Must(e.clause, Len(e.b) > 0 /\ (\A i \in DOMAIN e.b : e.b[i] \in 0..(Len(e.p) - 1))
                   /\ \A k \in DOMAIN e.p : Plausible(Count(e.b, k - 1), Len(e.b), e.p[k]))
Joint(b, k, q) == Cardinality({i \in DOMAIN b : b[i] = <<k, q>>})
(* pairs of independent draws, each uniform over B bins *)
FailsPair(e) == Must(e.clause, Len(e.b) > 0 /\ \A k, q \in 0..(e.B - 1) : Plausible(Joint(e.b, k, q), Len(e.b), One \div (e.B * e.B)))
FailsDistinct(e) == Must(e.clause, Cardinality({e.v[i] : i \in DOMAIN e.v}) >= Len(e.v) - e.slack)
FailsRange(e) == Must(e.clause, \A i \in DOMAIN e.v : e.lo <= e.v[i] /\ e.v[i] <= e.hi)
(* c events of probability p / One among n *)
FailsProb(e) == Must(e.clause, Plausible(e.c, e.n, e.p))

(* superposition: the pull s with coefficients (1,2), (2,1) and (3,2) under  *)
(* the same draws, and the distances a and b                                 *)
FailsLin(e) ==
  Must("C10.linear", \A i \in DOMAIN e.s : AbsD(e.s[i][1] + 4 * e.s[i][2] - 3 * e.s[i][3]) <= 40)
  \cup Must("C10.cognitive", \A i \in DOMAIN e.s :
        LET A == 2 * e.s[i][2] - e.s[i][1]  a == 3 * e.s[i][4]
        IN IF a >= 0 THEN -16 <= A /\ A <= a + 16 ELSE a - 16 <= A /\ A <= 16)
  \cup Must("C10.social", \A i \in DOMAIN e.s :
        LET B == 2 * e.s[i][1] - e.s[i][2]  b == 3 * e.s[i][5]
        IN IF b >= 0 THEN -16 <= B /\ B <= b + 16 ELSE b - 16 <= B /\ B <= 16)

Fails(e) == CASE e.k = "hist" -> FailsHist(e)
              [] e.k = "pair" -> FailsPair(e)
              [] e.k = "distinct" -> FailsDistinct(e)
              [] e.k = "range" -> FailsRange(e)
              [] e.k = "prob" -> FailsProb(e)
              [] e.k = "lin" -> FailsLin(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
