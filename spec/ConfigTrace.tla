----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS ConfigOps, TraceBase
VARIABLE l
Elems(s) == {s[q] : q \in DOMAIN s}
Conf(e) == [e.c EXCEPT !.keys = Elems(e.c.keys), !.oh = Elems(e.c.oh)]
FailsRun(e) ==
  LET c == Conf(e)
      v == Verdict(c) IN
  CASE v = "reject" -> Must("C26.rejects", e.outcome = "rejected") \cup Must("C26.at_first_use", e.outcome = "rejected" => e.hist <= 1)
    [] v = "accept" -> Must("C26.accepts", e.outcome = "completed") \cup Must("C26.completes", e.outcome = "completed" => e.hist = e.c.iters /\ e.sound)
    [] OTHER -> Must("C26.completes", e.outcome = "completed" => e.hist = e.c.iters /\ e.sound)
FailsSearch(e) == IF SearchBad(e) THEN Must("C26.rejects", e.outcome = "rejected") ELSE Must("C26.accepts", e.outcome = "completed")
Fails(e) == CASE e.k = "run" -> FailsRun(e)
              [] e.k = "search" -> FailsSearch(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
