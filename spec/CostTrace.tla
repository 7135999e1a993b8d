------------------------------ MODULE CostTrace ------------------------------
EXTENDS CostOps, TraceBase
VARIABLE l
(* rows: tokens of the rows of the swarm; calls: <<row token, kwargs token>> *)
(* of every call of the original; vals, ret: ranks of costs                  *)
FailsCall(e) ==
  IF ~Acceptable(e.kinds) THEN Must("C21.rejects", e.outcome = "rejected")
  ELSE Must("C21.accepts", e.outcome = "returned")
       \cup Must("C21.once_in_order", [q \in DOMAIN e.calls |-> e.calls[q][1]] = e.rows)
       \cup Must("C21.arguments", \A q \in DOMAIN e.calls : e.calls[q][2] = e.kw)
       \cup Must("C21.values", e.ret = e.vals)
Fails(e) == CASE e.k = "call" -> FailsCall(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
