---------------------------- MODULE BackendTrace ----------------------------
(* Judges loops over the real backend. A line has the contents (interned) of *)
(* all arrays anybody got so far, in the order in which they turned up.      *)
EXTENDS BackendOps, TraceBase
VARIABLES l, heap, refs
Cur(s) == refs[s]
FailsStep(e) ==
  Must("C28.unchanged", Kept(heap, e.heap))
  \cup Must("C28.only_its_fields", \A s \in DOMAIN e.refs : \A f \in Fields :
              heap # <<>> /\ e.refs[s][f] # Cur(s)[f] => s = e.s /\ f \in Writes(e.op))
  \cup Must("C28.shapes", \A s \in DOMAIN e.refs : \A f \in Fields : f \in {e.set[s][i] : i \in DOMAIN e.set[s]} => e.shape[s][f] \in Shapes(f, e.n[s], e.d[s]))
  \cup Must("C28.size", \A s \in DOMAIN e.refs : e.size[s] = <<e.n[s], e.d[s]>>)
Fails(e) == CASE e.k = "step" -> FailsStep(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0 /\ heap = <<>> /\ refs = <<>>
TraceNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1]
     IN IF e.k = "begin" THEN heap' = <<>> /\ refs' = <<>>
        ELSE /\ Report(l + 1, Fails(e))
             /\ IF e.k = "step" THEN heap' = e.heap /\ refs' = e.refs ELSE UNCHANGED <<heap, refs>>
  /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, heap, refs>>
=============================================================================
