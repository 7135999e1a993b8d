---------------------------- MODULE TopologyTrace ----------------------------
(* Judges the neighbourhoods found by probing real topologies.               *)
EXTENDS TopologyOps, TraceBase
VARIABLE l
SetOf(q) == {q[i] : i \in DOMAIN q}
Adj(e) == [i \in DOMAIN e.adj |-> SetOf(e.adj[i])]

Legal(e) ==
  LET adj == Adj(e)
      all == 1..e.n
  IN CASE e.top = "star" -> Must(e.pid \o ".star", \A i \in all : adj[i] = all)
       [] e.top = "ring" -> Must(e.pid \o ".ring", \A i \in all : IsNearest(adj[i], i, e.dr[i], e.kk))
       [] e.top = "vn" -> Must(e.pid \o ".von_neumann", \A i \in all : IsNearest(adj[i], i, e.dr[i], Lattice(e.d, e.r)))
       [] e.top = "random" -> Must(e.pid \o ".random_selves", Selves(adj))
                              \cup Must(e.pid \o ".random_others", HasOthers(adj, e.kk))
                              \cup Must(e.pid \o ".random_mutual", Mutual(adj))
                              \cup Must(e.pid \o ".random_connected", Connected(adj))
       [] e.top = "pyramid" ->
            IF e.n <= e.d + 1 THEN Must(e.pid \o ".pyramid_everybody", \A i \in all : adj[i] = all)
            ELSE IF e.opp # <<>> THEN Must(e.pid \o ".pyramid_cross", \A i \in all : adj[i] \cup {i} = all \ {e.opp[i]})
            ELSE LET s == SureNb(e.pts, e.tol)  m == MaybeNb(e.pts, e.tol)
                 IN Must(e.pid \o ".pyramid", \A i \in all : s[i] \subseteq adj[i] /\ adj[i] \subseteq m[i] \cup {i})
       [] OTHER -> {"unknown topology"}
(* a static topology: the same neighbourhoods as at its first use            *)
FailsSame(e) == Must(e.clause, e.first = e.later)
(* fresh draws                                                               *)
FailsFresh(e) == Must(e.clause, Cardinality({e.v[i] : i \in DOMAIN e.v}) >= e.least)

Fails(e) == CASE e.k = "nb" -> Legal(e)
              [] e.k = "same" -> FailsSame(e)
              [] e.k = "fresh" -> FailsFresh(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
