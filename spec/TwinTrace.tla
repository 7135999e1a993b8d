----------------------------- MODULE TwinTrace -----------------------------
(* Judges recorded operations on real optimisers by the two functions of     *)
(* Twin: the outcome of an operation is a function of the optimiser's own    *)
(* history, and the outcome of a run is a function of the swarm it starts    *)
(* from. The key of an operation has nothing about other optimisers, about   *)
(* verbosity, the number of processes, the process it runs in, or the way    *)
(* the objective is written.                                                 *)
(* Terms and keys are interned: their number is their place in `tab`.        *)
EXTENDS TraceBase

VARIABLES l, tab, st, seen
tvars == <<l, tab, st, seen>>

Has(t, x) == \E i \in DOMAIN t : t[i] = x
Put(t, x) == IF Has(t, x) THEN t ELSE Append(t, x)
Num(t, x) == CHOOSE i \in DOMAIN t : t[i] = x

Cur(o) == IF o \in DOMAIN st THEN st[o] ELSE [base |-> 0, nb |-> 0]

(* the keys of an operation: <<kind, ...>> with what must be a function of it *)
HistKey(e) ==
  CASE e.op \in {"new", "reset"} -> <<"start", e.cfg, e.op, e.rng>>
    [] e.op = "run" -> <<"run", e.cfg, Cur(e.o).base, Cur(e.o).nb, e.args, e.rng>>
    [] OTHER -> <<e.op, e.cfg, Cur(e.o).base, e.args, e.rng>>
Keys(e) ==
  CASE e.op \in {"new", "reset"} -> {<<"fresh", e.cfg, e.rng2>>, HistKey(e)}
    [] e.op = "run" -> {HistKey(e), <<"swarm", e.cfg, e.at, Cur(e.o).nb, e.args, e.rng>>}
    [] OTHER -> {HistKey(e)}
(* the history of the optimiser after the operation *)
Term(e) ==
  CASE e.op \in {"new", "reset"} -> <<"fresh", e.cfg, e.rng2>>
    [] OTHER -> HistKey(e)
Next(e) ==
  LET t == Num(Put(tab, Term(e)), Term(e))
      old == Cur(e.o)
  IN [base |-> t,
      nb |-> CASE e.op = "new" -> 0
               [] e.op = "run" /\ e.static /\ old.nb = 0 -> t
               [] OTHER -> old.nb]

Rivals(e) == {r \in seen : r.key \in Keys(e) /\ r.op \in {e.op, "new", "reset"}}
(* another random state, another swarm *)
Strangers(e) == {r \in seen : r.op = e.op /\ r.op \in {"new", "reset"} /\ r.cfg = e.cfg /\ r.rng # e.rng}

FailsOp(e) ==
  Must(e.pid \o ".evaluations", \A r \in Rivals(e) : r.ev = e.ev)
  \cup Must(e.pid \o ".result", \A r \in Rivals(e) : r.res = e.res)
  \cup Must(e.pid \o ".histories", \A r \in Rivals(e) : r.hist = e.hist)
  \cup Must(e.pid \o ".swarm", \A r \in Rivals(e) : r.swarm = e.swarm)
  \cup Must(e.pid \o ".random_state", \A r \in Rivals(e) : r.rng2 = e.rng2)
  \cup Must(e.pid \o ".different_swarms", \A r \in Strangers(e) : r.swarm # e.swarm /\ (e.drawn => r.ev # e.ev))

(* silence, and what a verbose run shows *)
RECURSIVE Compress(_)
Compress(q) == IF Len(q) < 2 THEN q
               ELSE IF q[1] = q[2] THEN Compress(Tail(q)) ELSE <<q[1]>> \o Compress(Tail(q))
FailsShown(e) ==
  IF e.verbose
  THEN Must(e.pid \o ".shows_best_cost", Compress(e.shown) = Compress(e.costs))
       \cup Must(e.pid \o ".reports_parameters", e.params)
       \cup Must(e.pid \o ".reports_result", e.final)
  ELSE Must(e.pid \o ".silent", e.bytes = 0)

(* a new optimiser is like one that has been reset *)
AsNew(e) == \E a, b \in seen : a.op = "new" /\ b.op = "reset" /\ b.cfg = a.cfg /\ b.rng2 = a.rng2

Fails(e) == CASE e.k = "op" -> FailsOp(e)
              [] e.k = "asnew" -> Must(e.pid \o ".reset_as_new", AsNew(e))
              [] e.k = "inputs" -> Must(e.pid \o ".inputs", e.before = e.after)
              [] e.k = "shown" -> FailsShown(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}

Record(e) == {[key |-> k, op |-> e.op, cfg |-> e.cfg, rng |-> e.rng, rng2 |-> e.rng2, ev |-> e.ev, res |-> e.res,
               hist |-> e.hist, swarm |-> e.swarm] : k \in Keys(e)}

TraceInit == l = 0 /\ tab = <<>> /\ st = <<>> /\ seen = {}
(* A scenario starts with a line k = "begin", which forgets everything.      *)
TraceNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1]
     IN IF e.k = "begin" THEN /\ tab' = <<>> /\ st' = <<>> /\ seen' = {}
        ELSE /\ Report(l + 1, Fails(e))
             /\ IF e.k = "op"
                THEN /\ tab' = Put(tab, Term(e))
                     /\ st' = [o \in DOMAIN st \cup {e.o} |-> IF o = e.o THEN Next(e) ELSE st[o]]
                     /\ seen' = seen \cup Record(e)
                ELSE UNCHANGED <<tab, st, seen>>
  /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
