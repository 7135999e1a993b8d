----------------------------- MODULE ConfigOps -----------------------------
(* Which configurations are accepted.                                        *)
EXTENDS Integers, Sequences, FiniteSets
BoundaryNames == {"nearest", "random", "shrink", "reflective", "intermediate", "periodic"}
VelocityNames == {"unmodified", "adjust", "invert", "zero"}
ScheduleNames == {"exp_decay", "lin_variation", "random", "nonlin_mod"}
TopologyNames == {"star", "ring", "vonneumann", "random", "pyramid"}
(* a configuration: cls "G" global best, "L" local best, "D" binary,         *)
(* "O" general; topo: topology of "O" or "wrong"; n, d; keys: the options    *)
(* given; k, p, r: their values; bounds; bh, vh; oh: schedules as            *)
(* <<option, name>>; window: <<"int", n>> or another kind; iters             *)
RECURSIVE Delannoy(_, _)
Delannoy(d, r) == IF d = 0 \/ r = 0 THEN 1 ELSE Delannoy(d - 1, r) + Delannoy(d - 1, r - 1) + Delannoy(d, r - 1)
Ringy(c) == c.cls \in {"L", "D"} \/ (c.cls = "O" /\ c.topo = "ring")
Needs(c) == {"c1", "c2", "w"} \cup (IF Ringy(c) THEN {"k", "p"} ELSE {})
            \cup (IF c.cls = "O" /\ c.topo = "random" THEN {"k"} ELSE {})
            \cup (IF c.cls = "O" /\ c.topo = "vonneumann" THEN {"p", "r"} ELSE {})
Neighbours(c) == IF Ringy(c) THEN c.k ELSE IF c.cls = "O" /\ c.topo = "vonneumann" THEN Delannoy(c.d, c.r) ELSE 1
Bad(c) ==
  \/ c.window[1] # "int" \/ c.window[2] <= 0
  \/ c.cls = "O" /\ c.topo \notin TopologyNames
  \/ ~(Needs(c) \subseteq c.keys)
  \/ c.cls # "D" /\ c.bounds /\ c.bh \notin BoundaryNames
  \/ c.vh \notin VelocityNames
  \/ \E s \in c.oh : s[2] \notin ScheduleNames /\ s[1] \in c.keys
  \/ Needs(c) \subseteq c.keys /\ c.cls # "G" /\ (Neighbours(c) < 1 \/ Neighbours(c) > c.n)
  \/ c.cls = "O" /\ c.topo = "random" /\ "k" \in c.keys /\ (c.k < 0 \/ c.k >= c.n)
(* left open: velocity strategies that look at bounds without bounds, one    *)
(* particle alone among random neighbours, a pyramid on a line, a schedule   *)
(* for an option that is not there                                           *)
Open(c) ==
  \/ ~c.bounds /\ c.vh \in {"invert", "zero"}
  \/ c.cls = "O" /\ c.topo = "random" /\ (c.n = 1 \/ c.k = 0)
  \/ c.cls = "O" /\ c.topo = "pyramid" /\ c.d = 1 /\ c.n > 2
  \/ \E s \in c.oh : s[1] \notin {"c1", "c2", "w"}
Verdict(c) == IF c.cls = "O" /\ c.topo = "random" /\ c.n = 1 THEN "open"
              ELSE IF Bad(c) THEN "reject" ELSE IF Open(c) THEN "open" ELSE "accept"
(* what a search asks of its arguments                                       *)
SearchBad(s) == ~s.optimizes \/ (s.random /\ s.rounds # "int")
==============================================================================
