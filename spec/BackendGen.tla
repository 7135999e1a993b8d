----------------------------- MODULE BackendGen -----------------------------
(* Orders of the steps of a loop, printed as cases <<swarm, operation>>.     *)
EXTENDS BackendOps, TLC, Json
CONSTANTS Swarms, Length
VARIABLE script
DoneBy(s) == {script[i][2] : i \in {j \in DOMAIN script : script[j][1] = s}}
Init == script = <<>>
Next == /\ Len(script) < Length
        /\ \E s \in 1..Swarms, op \in Operations \ {"keep"} :
             /\ s = 1 \/ \E i \in DOMAIN script : script[i][1] = s - 1
             /\ Ready(op, DoneBy(s))
             /\ script' = Append(script, <<s, op>>)
Spec == Init /\ [][Next]_script
Emit == Len(script) = Length => PrintT(<<"CASE", ToJson(script)>>)
=============================================================================
