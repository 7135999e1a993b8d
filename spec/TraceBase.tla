----------------------------- MODULE TraceBase -----------------------------
(* Total trace validation: every line is consumed, and for every line the    *)
(* names of the clauses it fails are printed.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(line, fails) == \A c \in fails : PrintT(<<"FAIL", line, c>>)
Finished(line) == line = Len(Trace) => PrintT(<<"DONE", line>>)

(* the clause fails unless the condition holds *)
Must(clause, cond) == IF cond THEN {} ELSE {clause}
=============================================================================
