------------------------------ MODULE PSOTrace ------------------------------
(* Checks recorded runs of the real optimisers against the steps of PSO.     *)
(* The state s is the state of PSO, computed by PSOOps from the evaluated    *)
(* positions and costs alone; what the optimiser shows is compared with it   *)
(* and then adopted, so that the rest of the trace is judged on its own.     *)
EXTENDS PSOOps, MotionOps, TraceBase

VARIABLES l, s
tvars == <<l, s>>

Ids(n) == 1..n

(* ------------------------------ state changes ---------------------------- *)
NewState(e) ==
  [n |-> e.n, S |-> e.S, F |-> e.F, tn |-> e.tn, td |-> e.td, top |-> e.top, K |-> e.K,
   static |-> e.static, w |-> e.coef[1], c1 |-> e.coef[2], c2 |-> e.coef[3],
   pbc |-> [i \in 1..e.n |-> Inf], pbt |-> e.x, best |-> Inf, streak |-> 0,
   t |-> 0, iters |-> 0, running |-> FALSE, must |-> FALSE, hist |-> <<>>, base |-> 0,
   xe |-> e.x, ve |-> e.v, dr0 |-> <<>>, evs |-> {}, prev |-> <<>>,
   links |-> [yes |-> {}, no |-> {}], clean |-> TRUE, broke |-> FALSE]

Run(e) == [s EXCEPT !.pbc = [i \in 1..s.n |-> Inf], !.best = Inf, !.streak = 0, !.t = 0,
                    !.iters = e.iters, !.running = TRUE, !.must = FALSE, !.base = Len(s.hist),
                    !.evs = {}, !.prev = <<>>]

ResetState(e) == [s EXCEPT !.pbc = [i \in 1..s.n |-> Inf], !.pbt = e.x, !.best = Inf, !.streak = 0,
                           !.t = 0, !.running = FALSE, !.must = FALSE, !.hist = <<>>, !.base = 0,
                           !.xe = e.x, !.ve = e.v, !.evs = {}, !.prev = <<>>]

(* one iteration: Evaluate, UpdatePbest, UpdateBest, Record of PSO in a row *)
PbC(e) == NextPbCost(e.c, s.pbc)
PbT(e) == NextPbTok(e.c, s.pbc, e.x, s.pbt)
BestC(e) == SeqMin(PbC(e))
Streak(e) == NextStreak(s.streak, s.t = 0, BestC(e), s.best, s.tn, s.td, s.S)
HistEntry(e) == [x |-> e.x, v |-> e.v, c |-> BestC(e), m |-> MeanTimesN(PbC(e))]
(* What an iteration reveals about links that are not known: the attractor of *)
(* a particle belongs to a neighbour, and nobody better is a neighbour.       *)
Owners(e, i) == {j \in 1..s.n : e.pbt[j] = e.att[i]}
RevealYes(e) == UNION {IF Cardinality(Owners(e, i)) = 1 THEN {{i, j} : j \in Owners(e, i)} ELSE {} : i \in 1..s.n}
RevealNo(e) == UNION {LET low == SeqMin([j \in Owners(e, i) |-> e.pbc[j]])
                      IN {{i, q} : q \in {z \in 1..s.n : e.pbc[z] < low}} : i \in {z \in 1..s.n : Owners(e, z) # {}}}
Infers(e) == e.post /\ e.att # <<>> /\ s.top \in {"link", "any"}
Links(e) == IF ~Infers(e) THEN s.links
            ELSE [yes |-> (IF s.static THEN s.links.yes ELSE {}) \cup RevealYes(e),
                  no |-> (IF s.static THEN s.links.no ELSE {}) \cup RevealNo(e)]

Iterate(e) ==
  [s EXCEPT !.pbc = IF e.post THEN e.pbc ELSE PbC(e),
            !.pbt = IF e.post THEN e.pbt ELSE PbT(e),
            !.best = IF e.post THEN e.best ELSE BestC(e),
            !.streak = Streak(e), !.must = Streak(e) >= s.F, !.t = s.t + 1,
            !.hist = Append(s.hist, HistEntry(e)),
            !.dr0 = IF s.dr0 = <<>> THEN e.dr ELSE s.dr0,
            !.evs = s.evs \cup {<<e.x[i], e.c[i]>> : i \in 1..s.n},
            !.links = Links(e), !.xe = <<>>, !.ve = -1]

(* --------------------------------- clauses -------------------------------- *)
FailsNew(e) ==
  Must("C18.init", e.init = <<>> \/ e.x = e.init)
  \cup Must("C06.initial", e.nob = 0)
  \cup Must("C08.initial", e.noc = 0)

FailsRun(e) ==
  Must("C14.position", s.xe = <<>> \/ e.x = s.xe)
  \cup Must("C14.velocity", s.ve = -1 \/ e.v = s.ve)

(* Which personal bests may attract particle i *)
DR(e) == IF s.static /\ s.dr0 # <<>> THEN s.dr0 ELSE e.dr
Allowed(e, i) ==
  IF s.top = "star" THEN Attractors(1..s.n, e.pbc, e.pbt)
  ELSE IF s.top = "ring" /\ DR(e) # <<>> THEN RingAttractors(i, DR(e)[i], s.K, e.pbc, e.pbt)
  ELSE {e.pbt[j] : j \in {q \in 1..s.n : s.top = "any" \/ e.pbc[q] <= e.pbc[i]}}

FailsPost(e) ==
  IF ~e.post THEN {} ELSE
  Must("C02.cost", e.pbc = PbC(e))
  \cup Must("C02.position", \A i \in 1..s.n : PbC(e)[i] < Inf => e.pbt[i] = PbT(e)[i])
  \cup Must("C03.best", e.best = SeqMin(e.pbc))
  \cup (IF e.att = <<>> THEN {} ELSE
        Must(IF s.static /\ s.t > 0 THEN "C05.static" ELSE "C03.attractor",
             \A i \in 1..s.n : e.att[i] \in Allowed(e, i))
        \cup Must("C03.attractor", \A i \in 1..s.n : e.att[i] \in {e.pbt[j] : j \in 1..s.n})
        \cup Must(IF s.static /\ s.t > 0 THEN "C05.static_links" ELSE "C03.links",
                  ~Infers(e) \/ Links(e).yes \cap Links(e).no = {})
        \cup (IF s.top = "ring" /\ ~s.static
              THEN Must("C05.dynamic", \A i \in 1..s.n : e.att[i] \in Allowed(e, i)) ELSE {}))

FailsIt(e) ==
  Must("C13.order", e.t = s.t /\ s.running)
  \cup Must("C13.rows", Len(e.x) = s.n /\ Len(e.c) = s.n)
  \cup Must("C13.kwargs", e.kw)
  \cup Must("C14.first", s.t > 0 \/ s.xe = <<>> \/ e.x = s.xe)
  \cup Must("C12.continued", ~s.must)
  \cup Must("C13.budget", e.t < s.iters)
  \cup Must("C06.bounds", e.nob = 0)
  \cup Must("C08.clamp", e.noc = 0)
  \cup Must("C16.binary", e.nbin = 0)
  \* a run that stops early does not move the swarm any more
  \cup Must("C10.velocity", Streak(e) >= s.F \/ \A q \in DOMAIN e.mv : MoveOK(e.mv[q], e.co))
  \cup Must("C10.position", Streak(e) >= s.F \/ \A q \in DOMAIN e.ps : StepOK(e.ps[q]))
  \cup FailsPost(e)

FailsEnd(e) ==
  LET nums == {p \in s.evs : p[2] # NaN}
      low == IF nums = {} THEN Inf ELSE SeqMin([p \in nums |-> p[2]])
  IN IF e.raised THEN Must("C25.iterations", e.t = s.t) ELSE
     Must("C01.cost", e.cost = low)
     \cup Must("C01.position", low = Inf \/ <<e.tok, low>> \in s.evs)
     \cup Must("C01.shape", e.shape)
     \cup Must("C12.stopped", s.t = s.iters \/ s.must)
     \cup Must("C13.evaluations", e.t = s.t)
     \cup Must("C11.last", e.hlast = e.cost)

FailsHist(e) ==
  LET H == s.hist
      ok == Len(e.h) = Len(H)
      K == IF ok THEN DOMAIN H ELSE {}
  IN Must("C11.length", ok /\ e.lens = [q \in 1..5 |-> Len(H)])
     \cup Must("C11.position", \A k \in K : e.h[k].x = H[k].x)
     \cup Must("C11.velocity", \A k \in K : e.h[k].v = H[k].v)
     \cup Must("C11.cost", \A k \in K : e.h[k].c = H[k].c)
     \cup Must("C11.mean", s.S = 0 \/ \A k \in K : e.h[k].m = H[k].m)
     \cup Must("C11.neighbour", \A k \in K : e.h[k].q = H[k].c)
     \cup Must("C06.history", e.nob = 0)
     \cup Must("C08.history", e.noc = 0)
     \cup Must("C16.history", e.nbin = 0)

FailsReset(e) ==
  Must("C14.histories", e.lens = [q \in 1..5 |-> 0])
  \cup Must("C14.init", e.init = <<>> \/ e.x = e.init)
  \cup Must("C14.bests", e.fresh)
  \cup Must("C14.redrawn", e.init # <<>> \/ ~e.same)
  \cup Must("C06.initial", e.nob = 0)
  \cup Must("C08.initial", e.noc = 0)
  \cup Must("C16.initial", e.nbin = 0)

(* ------------------------------- trace driver ----------------------------- *)
After(e) == CASE e.k = "new" -> NewState(e)
              [] e.k = "run" -> Run(e)
              [] e.k = "it" -> Iterate(e)
              [] e.k = "end" -> [s EXCEPT !.running = FALSE, !.xe = e.x, !.ve = e.v]
              [] e.k = "reset" -> ResetState(e)
              [] OTHER -> s
Fails(e) == CASE e.k = "new" -> FailsNew(e)
              [] e.k = "run" -> FailsRun(e)
              [] e.k = "it" -> FailsIt(e)
              [] e.k = "end" -> FailsEnd(e)
              [] e.k = "reset" -> FailsReset(e)
              [] e.k = "hist" -> FailsHist(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}


(* C25: what held until an objective raised still holds afterwards, for the   *)
(* histories of the broken run and for whatever is done with it next.         *)
Broke(e) == s.broke \/ (e.k = "end" /\ e.raised)
AfterFailure(e, F) == IF e.k # "new" /\ s.broke /\ s.clean /\ F # {} THEN {"C25.as_before"} ELSE {}

TraceInit == l = 0 /\ s = [n |-> 0, clean |-> TRUE, broke |-> FALSE]
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l + 1]
                    F == Fails(e)
                IN /\ Report(l + 1, F \cup AfterFailure(e, F))
                   /\ s' = IF e.k = "new" THEN After(e)
                           ELSE [After(e) EXCEPT !.clean = @ /\ (F = {} \/ s.broke), !.broke = Broke(e)]
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
