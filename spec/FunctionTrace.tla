---------------------------- MODULE FunctionTrace ----------------------------
EXTENDS FunctionOps, TraceBase
VARIABLE l
FailsDomain(e) ==
  IF Accepted(e.fn, e.d, e.rows) THEN Must("C23.accepts_inside", e.outcome = "returned") ELSE Must("C23.rejects_outside", e.outcome = "rejected")
(* vals: of the batch; alone: of every row as a batch of its own             *)
FailsRows(e) == Must("C23.one_value_per_row", Len(e.vals) = Len(e.alone)) \cup Must("C23.rowwise", e.vals = e.alone)
                \cup Must("C23.input_untouched", e.same)
FailsPoly(e) == LET ts == Terms(e.fn, e.a, e.q) IN
  Must("C23.formula", e.whole /\ \A i \in DOMAIN e.primes : Residue(ts, e.primes[i]) = e.res[i])
FailsLattice(e) == LET w == LatticeValue(e.fn, e.a) IN Must("C23.formula", w[1] => AbsF(w[2] - e.f) <= w[3])
FailsMin(e) == Must("C23.minimum", IsMinPoint(e.fn, e.at) => AbsF(e.f - MinValue(e.fn)) <= MinTolerance(e.fn))
FailsLow(e) == Must("C23.nowhere_lower", e.f >= MinValue(e.fn) - MinTolerance(e.fn))
FailsOrbit(e) == Must("C23.symmetry", \A i, j \in DOMAIN e.pts : Point(e.fn, e.pts[i]) = Point(e.fn, e.pts[j]) => e.vals[i] = e.vals[j])
Fails(e) == CASE e.k = "domain" -> FailsDomain(e)
              [] e.k = "rows" -> FailsRows(e)
              [] e.k = "poly" -> FailsPoly(e)
              [] e.k = "lattice" -> FailsLattice(e)
              [] e.k = "min" -> FailsMin(e)
              [] e.k = "low" -> FailsLow(e)
              [] e.k = "orbit" -> FailsOrbit(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
