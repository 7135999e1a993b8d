--------------------------- MODULE GeneratorTrace ---------------------------
EXTENDS GeneratorOps, TraceBase
VARIABLE l
Fails(e) ==
  CASE e.k = "cells" -> Must(e.clause, e.v # <<>> /\ \A i \in DOMAIN e.v : Inside(e.v[i]))
    [] e.k = "perm" -> Must(e.clause, \A i \in DOMAIN e.rows : IsPermutation(e.rows[i]) /\ Len(e.rows[i]) = e.d)
    [] e.k = "binary" -> Must(e.clause, \A i \in DOMAIN e.rows : IsBinary(e.rows[i]) /\ Len(e.rows[i]) = e.d)
    [] e.k = "asked" -> Must(IF Refused(e.r) THEN "C18.rejects" ELSE "C18.accepts", Open(e.r) \/ e.refused = Refused(e.r))
    [] e.k = "fact" -> Must(e.clause, e.ok)
    [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
