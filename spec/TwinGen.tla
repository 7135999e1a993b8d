------------------------------ MODULE TwinGen ------------------------------
(* All scripts of Len operations on the optimisers 1..Opts of Twin, printed  *)
(* as cases: pairs <<optimiser, operation>>.                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Opts, Kinds, Length
VARIABLE script
Built == {script[i][1] : i \in DOMAIN script}
Init == script = <<>>
Next == /\ Len(script) < Length
        /\ \E o \in 1..Opts :
             IF o \notin Built
             THEN (o = 1 \/ o - 1 \in Built) /\ script' = Append(script, <<o, "new">>)
             ELSE \E k \in Kinds : script' = Append(script, <<o, k>>)
Spec == Init /\ [][Next]_script
Emit == Len(script) = Length /\ Built = 1..Opts => PrintT(<<"CASE", ToJson(script)>>)
=============================================================================
