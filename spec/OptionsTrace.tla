---------------------------- MODULE OptionsTrace ----------------------------
(* Judges coefficients computed by the handler (k = "opt") and coefficients  *)
(* recovered from the moves of real optimisers (k = "force").                *)
EXTENDS OptionsOps, TraceBase
VARIABLE l
EndOf(e) == IF e.given THEN e.end ELSE IF e.strat = "random" THEN e.start + Q ELSE DefaultEnd(e.name, e.start)
FailsOpt(e) == Must(e.clause, Fits(e.strat, e.start, EndOf(e), e.i, e.n, e.par, e.got))
(* the largest of many draws times the coefficient: at most the coefficient,  *)
(* and hardly less                                                            *)
FailsForce(e) ==
  IF e.strat = "random" THEN Must(e.clause, e.got <= EndOf(e) + 200)
  ELSE LET f == Value(e.strat, e.start, EndOf(e), e.i, e.n, e.par)
       IN Must(e.clause, IF f >= 0 THEN e.got <= f + Slack(e.strat) /\ e.got >= f - f \div 16 - Slack(e.strat)
                         ELSE e.got >= f - Slack(e.strat) /\ e.got <= f + AbsO(f) \div 16 + Slack(e.strat))
Fails(e) == CASE e.k = "opt" -> FailsOpt(e)
              [] e.k = "force" -> FailsForce(e)
              [] e.k = "fresh" -> Must(e.clause, \E i, j \in DOMAIN e.v : e.v[i] # e.v[j])
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
