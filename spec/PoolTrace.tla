------------------------------ MODULE PoolTrace ------------------------------
(* Validates what worker processes evaluated against the swarms of the run,  *)
(* and the parallel run against the serial one.                              *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase

VARIABLES l, left
tvars == <<l, left>>
Bag(q) == [v \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = v})]
Held(b, v) == IF v \in DOMAIN b THEN b[v] ELSE 0
Minus(b, c) == [v \in DOMAIN b |-> b[v] - Held(c, v)]
Covers(b, c) == \A v \in DOMAIN c : Held(b, v) >= c[v]
Empty(b) == \A v \in DOMAIN b : b[v] = 0

Fails(e) ==
  CASE e.k = "iter" -> Must("C13.each_evaluated", Empty(left))
    [] e.k = "task" -> Must("C13.nothing_else", Covers(left, Bag(e.x))) \cup Must("C13.parallel_kwargs", e.kw)
    [] e.k = "done" -> Must("C13.each_evaluated", Empty(left)) \cup Must("C13.workers_gone", e.children = 0)
    [] e.k = "pair" -> Must("C13.parallel_costs", e.a.c = e.b.c)
                       \cup Must("C13.parallel_positions", e.a.x = e.b.x)
                       \cup Must("C13.parallel_result", e.a.r = e.b.r)
                       \cup Must("C13.parallel_histories", e.a.h = e.b.h)
    [] e.k = "fact" -> Must(e.clause, e.ok)
    [] OTHER -> {"unknown line"}
None == [v \in {} |-> 0]
TraceInit == l = 0 /\ left = None
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l + 1]
                IN /\ Report(l + 1, Fails(e))
                   /\ left' = CASE e.k = "iter" -> Bag(e.x)
                                [] e.k = "task" -> Minus(left, Bag(e.x))
                                [] OTHER -> None
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
