------------------------------- MODULE Config -------------------------------
(* Building an optimiser and using its parts for the first time.             *)
EXTENDS ConfigOps
CONSTANTS Sizes, Dims, Iters, Fault
VARIABLES c, phase, done, used
vars == <<c, phase, done, used>>
Configs == [cls : {"G", "L", "D", "O"}, topo : {"star", "ring", "vonneumann", "wrong"}, n : Sizes, d : Dims,
            keys : {{"c1", "c2", "w", "k", "p", "r"}, {"c1", "c2", "w"}, {"c2", "w", "k", "p", "r"}, {"c1", "c2", "w", "k", "r"}},
            k : {0, 1, 2, 4}, p : {1}, r : {0, 1}, bounds : BOOLEAN, bh : {"nearest", "nope"}, vh : {"unmodified", "zero", "nope"},
            oh : {{}, {<<"w", "random">>}, {<<"c1", "nope">>}}, window : {<<"int", 1>>, <<"int", 0>>, <<"float", 2>>}]
Init == c \in {x \in Configs : (x.cls # "O" => x.topo = "star") /\ (x.cls # "O" \/ x.topo # "vonneumann" => x.r = 1)
                               /\ (x.cls = "G" => x.k = 1) /\ (~x.bounds => x.bh = "nope")}
        /\ phase = "new" /\ done = 0 /\ used = {}
WindowBad == IF Fault = "window" THEN c.window[2] <= 0 ELSE c.window[1] # "int" \/ c.window[2] <= 0
Construct == /\ phase = "new"
             /\ phase' = (IF WindowBad \/ (c.cls = "O" /\ Fault # "anything" /\ c.topo \notin TopologyNames)
                             \/ (c.cls \in {"L", "D"} /\ ~({"k", "p"} \subseteq c.keys)) THEN "rejected" ELSE "built")
             /\ UNCHANGED <<c, done, used>>
Fails(part) ==
  CASE part = "topology" -> ~((Needs(c) \ {"c1", "c2", "w"}) \subseteq c.keys) \/ (c.cls # "G" /\ (Neighbours(c) < 1 \/ (Fault # "clip" /\ Neighbours(c) > c.n)))
    [] part = "schedule" -> Fault # "fallback" /\ \E s \in c.oh : s[1] \in c.keys /\ s[2] \notin ScheduleNames
    [] part = "move" -> ~({"c1", "c2", "w"} \subseteq c.keys)
    [] part = "velocity" -> Fault # "fallback" /\ (c.vh \notin VelocityNames \/ (c.vh \in {"zero", "invert"} /\ ~c.bounds))
    [] part = "bounds" -> c.cls # "D" /\ c.bounds /\ Fault # "fallback" /\ c.bh \notin BoundaryNames
Parts == <<"topology", "schedule", "move", "velocity", "bounds">>
Step == /\ phase = "built" /\ done < Iters
        /\ IF Cardinality(used) < Len(Parts)
           THEN /\ used' = used \cup {Parts[Cardinality(used) + 1]}
                /\ phase' = (IF Fails(Parts[Cardinality(used) + 1]) THEN "rejected" ELSE "built")
                /\ done' = done
           ELSE used' = {} /\ done' = done + 1 /\ phase' = phase
        /\ c' = c
Finish == phase = "built" /\ done = Iters /\ phase' = "completed" /\ UNCHANGED <<c, done, used>>
Spec == Init /\ [][Construct \/ Step \/ Finish]_vars
Decided == /\ phase = "completed" => Verdict(c) # "reject"
           /\ phase = "rejected" => Verdict(c) # "accept"
FirstUse == phase = "rejected" => done = 0
Counted == phase = "completed" => done = Iters
=============================================================================
