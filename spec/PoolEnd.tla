------------------------------- MODULE PoolEnd -------------------------------
(* The end of a parallel run. The main process, the thread that hands out    *)
(* the tasks and the workers share one pool. Whoever drops the last          *)
(* reference to a pool that nobody waited for runs its finaliser, which      *)
(* takes the lock of the task queue; an idle worker holds that lock until    *)
(* the thread sends it a sentinel. If that thread itself runs the finaliser, *)
(* both wait for ever. Owned: the main process waits for the pool, or, when  *)
(* the objective raised, terminates it and waits, before it lets it go.      *)
EXTENDS Integers, FiniteSets

CONSTANTS W, Owned
Workers == 1..W

VARIABLES main,      \* "map", "ends", "waits", "left"
          raised, refs, thread, closing, lock, worker, sentinels, finaliser
vars == <<main, raised, refs, thread, closing, lock, worker, sentinels, finaliser>>

Init == /\ main = "map" /\ raised \in BOOLEAN /\ refs = {"main", "thread"} /\ thread = "sending"
        /\ closing = FALSE /\ lock = 0 /\ worker = [k \in Workers |-> "busy"]
        /\ sentinels = 0 /\ finaliser = "none"

(* workers *)
Finish(k) == worker[k] = "busy" /\ worker' = [worker EXCEPT ![k] = "idle"]
             /\ UNCHANGED <<main, raised, refs, thread, closing, lock, sentinels, finaliser>>
Lock(k) == worker[k] = "idle" /\ lock = 0 /\ lock' = k /\ worker' = [worker EXCEPT ![k] = "listening"]
           /\ UNCHANGED <<main, raised, refs, thread, closing, sentinels, finaliser>>
Quit(k) == worker[k] = "listening" /\ sentinels > 0 /\ sentinels' = sentinels - 1 /\ lock' = 0
           /\ worker' = [worker EXCEPT ![k] = "gone"]
           /\ UNCHANGED <<main, raised, refs, thread, closing, finaliser>>

(* the results of the last evaluation have arrived *)
Mapped == main = "map" /\ (\A k \in Workers : worker[k] # "busy") /\ main' = "ends"
          /\ UNCHANGED <<raised, refs, thread, closing, lock, worker, sentinels, finaliser>>
Drop(who) == /\ refs' = refs \ {who}
             /\ finaliser' = IF refs' = {} THEN who ELSE finaliser
(* close, or terminate when the objective raised: the queue is shut *)
Ends == /\ main = "ends" /\ (Owned \/ ~raised) /\ closing' = TRUE
        /\ IF Owned THEN main' = "waits" /\ UNCHANGED <<refs, finaliser>> ELSE main' = "left" /\ Drop("main")
        /\ UNCHANGED <<raised, thread, lock, worker, sentinels>>
Abandons == /\ main = "ends" /\ ~Owned /\ raised /\ main' = "left" /\ Drop("main")
            /\ UNCHANGED <<raised, thread, closing, lock, worker, sentinels>>
Waited == /\ main = "waits" /\ thread = "over" /\ (\A k \in Workers : worker[k] = "gone")
          /\ main' = "left" /\ refs' = refs \ {"main"}
          /\ UNCHANGED <<raised, thread, closing, lock, worker, sentinels, finaliser>>

(* the thread lets go of the tasks, and with them of the pool *)
Sent == /\ thread = "sending" /\ thread' = "ready" /\ Drop("thread")
        /\ UNCHANGED <<main, raised, closing, lock, worker, sentinels>>
Sentinels == /\ thread = "ready" /\ closing /\ finaliser # "thread" /\ thread' = "over"
             /\ sentinels' = Cardinality({k \in Workers : worker[k] # "gone"})
             /\ UNCHANGED <<main, raised, refs, closing, lock, worker, finaliser>>

(* the finaliser shuts the queue, takes the lock and ends the workers *)
Shut == /\ finaliser # "none" /\ ~closing /\ closing' = TRUE
        /\ UNCHANGED <<main, raised, refs, thread, lock, worker, sentinels, finaliser>>
Kill == /\ finaliser # "none" /\ closing /\ lock = 0 /\ worker' = [k \in Workers |-> "gone"]
        /\ UNCHANGED <<main, raised, refs, thread, closing, lock, sentinels, finaliser>>

Next == \/ \E k \in Workers : Finish(k) \/ Lock(k) \/ Quit(k)
        \/ Mapped \/ Ends \/ Abandons \/ Waited \/ Sent \/ Sentinels \/ Shut \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C13, C25: nobody is left when the run is over *)
NobodyLeft == Owned => (main = "left" => \A k \in Workers : worker[k] = "gone")
AllGone == <>[](\A k \in Workers : worker[k] = "gone")
==============================================================================
