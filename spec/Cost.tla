-------------------------------- MODULE Cost --------------------------------
(* A decorated call: the original is called once per row, in order, with the *)
(* caller's arguments; what it returns is collected and then judged.         *)
EXTENDS CostOps, TLC, Json
CONSTANTS N, Kinds, Fault
Few == {"float", "two", "none"}
Many == Numbers \cup Others
Emitted == {"float", "int", "zerodim", "one", "two", "none", "text"}
VARIABLES plan, i, calls, got, done
vars == <<plan, i, calls, got, done>>
Init == plan \in [1..N -> Kinds] /\ i = 1 /\ calls = <<>> /\ got = <<>> /\ done = "no"
Call == /\ done = "no" /\ i <= N
        /\ calls' = Append(calls, IF Fault = "reversed" THEN N + 1 - i ELSE i)
        /\ got' = Append(got, plan[i]) /\ i' = i + 1 /\ UNCHANGED <<plan, done>>
Judge == /\ done = "no" /\ i > N
         /\ done' = IF (IF Fault = "first" THEN got[1] \in Numbers ELSE Acceptable(got)) THEN "returned" ELSE "rejected"
         /\ UNCHANGED <<plan, i, calls, got>>
Spec == Init /\ [][Call \/ Judge]_vars
InOrder == \A q \in DOMAIN calls : calls[q] = q
OnceEach == done = "returned" => Len(calls) = N
NeverMisfit == done = "returned" => \A q \in 1..N : plan[q] \in Numbers
Lenient == done = "rejected" => \E q \in 1..N : plan[q] \in Others
Emit == done # "no" => PrintT(<<"CASE", ToJson([plan |-> plan, returned |-> Acceptable(plan)])>>)
=============================================================================
