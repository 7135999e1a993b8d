-------------------------------- MODULE Pool --------------------------------
(* One parallel evaluation of a swarm: the swarm is split into tasks, the    *)
(* workers take and finish them in any order, an objective may raise, and    *)
(* the main process assembles the costs. Several iterations follow each      *)
(* other with a barrier in between.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, W, Iters, CanFail,
          Fault   \* a planted mistake, or "none"
P == 1..N
Tasks == 1..W
(* consecutive slices, the first ones longer by one; empty if W > N *)
Size(k) == N \div W + (IF k <= N % W THEN 1 ELSE 0)
RECURSIVE From(_)
From(k) == IF k = 1 THEN 1 ELSE From(k - 1) + Size(k - 1)
Slice(k) == From(k)..(From(k) + Size(k) - 1)
Cost(t, i) == 10 * t + i

VARIABLES it, queue, busy, done, evaluated, costs, hist, order, phase
vars == <<it, queue, busy, done, evaluated, costs, hist, order, phase>>
Init == /\ it = 1 /\ queue = Tasks /\ busy = {} /\ done = {} /\ evaluated = [i \in P |-> 0]
        /\ costs = [k \in Tasks |-> <<>>] /\ hist = <<>> /\ order = <<>> /\ phase = "map"
Take == /\ phase = "map" /\ \E k \in queue : queue' = queue \ {k} /\ busy' = busy \cup {k}
        /\ Cardinality(busy) < W
        /\ UNCHANGED <<it, done, evaluated, costs, hist, order, phase>>
Complete == /\ phase = "map" /\ \E k \in busy :
                /\ busy' = busy \ {k} /\ done' = done \cup {k}
                /\ queue' = (IF Fault = "again" /\ Len(order) = 0 THEN queue \cup {k} ELSE queue)
                /\ evaluated' = [i \in P |-> evaluated[i] + (IF i \in Slice(k) THEN 1 ELSE 0)]
                /\ costs' = [costs EXCEPT ![k] = [q \in 1..Size(k) |-> Cost(it, From(k) + q - 1)]]
                /\ order' = Append(order, k)
            /\ UNCHANGED <<it, hist, phase>>
Raise == /\ CanFail /\ phase = "map" /\ busy # {} /\ phase' = "failed" /\ queue' = {}
         /\ busy' = (IF Fault = "leak" THEN busy ELSE {})
         /\ UNCHANGED <<it, done, evaluated, costs, hist, order>>
RECURSIVE Concat(_, _)
Concat(c, k) == IF k = 0 THEN <<>> ELSE Concat(c, k - 1) \o c[k]
RECURSIVE Arrived(_, _)
Arrived(c, o) == IF o = <<>> THEN <<>> ELSE c[Head(o)] \o Arrived(c, Tail(o))
Assemble == /\ phase = "map" /\ (done = Tasks \/ (Fault = "hurry" /\ Cardinality(done) = W - 1))
            /\ hist' = Append(hist, IF Fault = "arrival" THEN Arrived(costs, order) ELSE Concat(costs, W))
            /\ IF it = Iters THEN phase' = "closed" /\ UNCHANGED <<it, queue, done, evaluated, costs, order>>
               ELSE /\ it' = it + 1 /\ queue' = Tasks /\ done' = {} /\ order' = <<>>
                    /\ evaluated' = [i \in P |-> 0] /\ costs' = [k \in Tasks |-> <<>>] /\ UNCHANGED phase
            /\ UNCHANGED busy
Next == Take \/ Complete \/ Raise \/ Assemble
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Complete) /\ WF_vars(Assemble)
(* C13: as the serial evaluation, whatever the order of completion *)
SameAsSerial == \A t \in 1..Len(hist) : hist[t] = [i \in P |-> Cost(t, i)]
EachOnce == /\ \A i \in P : evaluated[i] <= 1
            /\ (phase = "map" /\ done = Tasks => \A i \in P : evaluated[i] = 1)
NobodyLeft == phase \in {"closed", "failed"} => queue = {} /\ busy = {}
OnlyCompleted == phase = "failed" => Len(hist) = it - 1
Ends == <>(phase \in {"closed", "failed"})
(* the orders of completion, for replay *)
Emit == phase = "closed" => PrintT(<<"CASE", ToJson([order |-> order])>>)
=============================================================================
