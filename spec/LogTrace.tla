------------------------------ MODULE LogTrace ------------------------------
(* Judges what real reporters wrote. A line has all records in all files and *)
(* on the console (and what was printed) after the operation.                *)
EXTENDS LogOps, TraceBase
VARIABLES l, conf, files, console
Unknown == Default("?")
FailsNew(e) ==
  Must("C29.nothing_rewritten", e.files = files /\ e.console = console)
FailsSend(e) ==
  LET rec == <<e.msg, e.lvl, e.name>>
      f == Filed(files, conf, rec, e.own)
      t == Told(console, conf, rec, e.own)
  IN IF conf = Unknown
     THEN Must("C29.once", \A p \in DOMAIN files : AtMostOnce(files[p], e.files[p], rec))
          \cup Must("C29.once", AtMostOnce(console, e.console, rec))
     ELSE Must("C29.in_force", conf.file = "" \/ e.files[conf.file] = f[conf.file])
          \cup Must("C29.no_other_file", \A p \in DOMAIN files \ {conf.file} : e.files[p] = files[p])
          \cup Must("C29.console", e.console = t)
(* a run logs that it starts and that it ends, or nothing                    *)
FailsRun(e) ==
  LET S == IF e.verbose THEN <<<<e.start, INFO, e.name>>, <<e.end, INFO, e.name>>>> ELSE <<>>
      due == IF INFO >= conf.root THEN S ELSE <<>>
  IN Must("C29.run", \A p \in DOMAIN files : e.files[p] = IF p = conf.file /\ INFO >= conf.fmin THEN files[p] \o due ELSE files[p])
     \cup Must("C29.run", e.console = IF conf.console /\ INFO >= conf.cmin THEN console \o due ELSE console)
Fails(e) ==
  CASE e.k = "new" -> FailsNew(e)
    [] e.k = "build" -> Must("C29.nothing_rewritten", Kept(console, e.console) /\ \A p \in DOMAIN files : Kept(files[p], e.files[p]))
    [] e.k = "send" -> FailsSend(e)
    [] e.k = "run" -> FailsRun(e)
    [] e.k = "print" -> Must("C29.print", e.shown = IF Prints(e.verbosity, e.threshold) THEN <<e.msg>> ELSE <<>>)
                        \cup Must("C29.nothing_rewritten", e.files = files /\ e.console = console)
    [] e.k = "bar" -> Must("C29.bar", e.yields = [i \in 1..e.iters |-> i - 1])
                      \cup Must("C29.postfix", e.postfix = e.shown)
                      \cup Must("C29.nothing_rewritten", e.files = files /\ e.console = console)
    [] e.k = "fact" -> Must(e.clause, e.ok)
    [] OTHER -> {"unknown line"}
TraceInit == l = 0 /\ conf = Unknown /\ files = <<>> /\ console = <<>>
TraceNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1]
     IN IF e.k \in {"begin", "begin2"} THEN conf' = (IF e.k = "begin" THEN Unknown ELSE conf) /\ files' = e.files /\ console' = IF e.k = "begin" THEN <<>> ELSE e.console
        ELSE /\ Report(l + 1, Fails(e))
             /\ conf' = CASE e.k = "new" -> Brought(e) [] e.k = "build" -> Unknown [] OTHER -> conf
             /\ IF e.k = "fact" THEN UNCHANGED <<files, console>> ELSE files' = e.files /\ console' = e.console
  /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, conf, files, console>>
=============================================================================
