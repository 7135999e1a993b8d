----------------------------- MODULE SearchTrace -----------------------------
(* Judges recorded searches. A candidate is a sequence of value tokens in    *)
(* the order of the keys (0: a value that is not listed); scores are ranks.  *)
EXTENDS SearchOps, TraceBase
VARIABLE l
FailsGrid(e) == Must("C17.product", ExactlyListed(e.tried, e.lists))
FailsRandom(e) ==
  Must("C17.count", Len(e.tried) = e.count)
  \cup Must("C17.range", \A i \in DOMAIN e.tried : \A q \in DOMAIN e.ranges : InRange(e.tried[i][q], e.ranges[q]))
  \cup Must("C17.integer", e.ints)
  \cup Must("C17.constant", \A i \in DOMAIN e.const : e.const[i] = e.p)
(* builds: how many optimisers were built before run i and not run yet       *)
FailsResult(e) ==
  Must("C17.one_run_each", \A i \in DOMAIN e.runs : e.runs[i] = 1)
  \cup Must("C17.optimum", e.scores # <<>> /\ e.score \in Vals(e.scores) /\ \A j \in DOMAIN e.scores : IF e.max THEN e.scores[j] <= e.score ELSE e.scores[j] >= e.score)
  \cup Must("C17.options", \E j \in DOMAIN e.scores : e.scores[j] = e.score /\ e.tried[j] = e.best)
  \cup Must("C17.kept", e.kept)
Fails(e) == CASE e.k = "grid" -> FailsGrid(e)
              [] e.k = "random" -> FailsRandom(e)
              [] e.k = "result" -> FailsResult(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
