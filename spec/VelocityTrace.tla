---------------------------- MODULE VelocityTrace ----------------------------
(* Validates recorded calls of the real velocity handlers. A line "new" is a *)
(* new handler, a line "call" a call with all particles.                     *)
EXTENDS VelocityOps, TraceBase

VARIABLES l, mem
tvars == <<l, mem>>

Expected(e, i) ==
  LET out == IsOut(e.x[i], e.lb, e.ub)
  IN CASE e.strat = "unmodified" -> Unmodified(e.v[i], e.lo, e.hi)
       [] e.strat = "invert" -> Invert(e.v[i], out, e.zn, e.zd, e.lo, e.hi)
       [] e.strat = "zero" -> Zero(e.v[i], out, e.lo, e.hi)
       [] OTHER -> Adjust(e.v[i], e.x[i], IF mem = <<>> THEN <<>> ELSE mem[i], e.lo, e.hi)

FailsCall(e) ==
  IF ~e.shape THEN {"C09.shape"} ELSE
  Must("C09." \o e.strat, \A i \in DOMAIN e.v : e.y[i] = Expected(e, i))
  \cup Must("C08.handler", e.lo = <<>> \/ \A i \in DOMAIN e.y : \A d \in DOMAIN e.lo :
              e.lo[d] <= e.y[i][d] /\ e.y[i][d] <= e.hi[d])
  \cup Must("C08.inside_unchanged", e.lo = <<>> \/ e.strat # "unmodified" \/ \A i \in DOMAIN e.y : \A d \in DOMAIN e.lo :
              (e.lo[d] <= e.v[i][d] /\ e.v[i][d] <= e.hi[d]) => e.y[i][d] = e.v[i][d])
  \cup Must("C09.inputs_kept", e.kept)

Fails(e) == CASE e.k = "call" -> FailsCall(e)
              [] e.k = "new" -> {}
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0 /\ mem = <<>>
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l + 1]
                IN /\ Report(l + 1, Fails(e))
                   /\ mem' = CASE e.k = "new" -> <<>>
                                [] e.k = "call" -> e.x
                                [] OTHER -> mem
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
