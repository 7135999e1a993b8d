-------------------------------- MODULE Log --------------------------------
(* Reporters are built and messages sent in any order; three files and a     *)
(* console hold what was written. Sent is kept to say what should be there.  *)
EXTENDS LogOps, TLC, Json
CONSTANTS Kinds, Levels, MaxOps, Fault
VARIABLES conf, handlers, files, console, sent, script
vars == <<conf, handlers, files, console, sent, script>>
Paths == {"a", "b"}
Nothing == [file |-> "", fmin |-> 99, console |-> FALSE, cmin |-> 99, root |-> 99]
Init == /\ conf = Nothing /\ handlers = <<>> /\ files = [p \in Paths |-> <<>>]
        /\ console = <<>> /\ sent = <<>> /\ script = <<>>
Build(kind, p) ==
  LET c == Conf(kind, p)
  IN /\ conf' = c
     /\ handlers' = CASE Fault = "additive" -> Append(handlers, c)
                      [] Fault = "first" /\ handlers # <<>> -> handlers
                      [] OTHER -> <<c>>
     /\ files' = IF Fault = "truncate" /\ c.file # "" THEN [files EXCEPT ![c.file] = <<>>] ELSE files
     /\ script' = Append(script, <<"new", kind, p>>)
     /\ UNCHANGED <<console, sent>>
Send(lvl, own) ==
  LET rec == <<Len(sent) + 1, lvl, own>>
      RECURSIVE F(_, _)
      F(i, fs) == IF i > Len(handlers) THEN fs ELSE F(i + 1, Filed(fs, handlers[i], rec, own))
      RECURSIVE T(_, _)
      T(i, t) == IF i > Len(handlers) THEN t ELSE T(i + 1, Told(t, handlers[i], rec, own))
  IN /\ handlers # <<>>
     /\ files' = F(1, files)
     /\ console' = IF Fault = "mute" /\ own > 0 THEN console ELSE T(1, console)
     /\ sent' = Append(sent, [rec |-> rec, conf |-> conf, own |-> own])
     /\ script' = Append(script, <<"send", lvl, own>>)
     /\ UNCHANGED <<conf, handlers>>
Next == /\ Len(script) < MaxOps
        /\ \/ \E k \in Kinds, p \in Paths : (k = "console" => p = "a") /\ Build(k, p)
           \/ \E lvl \in Levels, own \in {0, WARNING} : Send(lvl, own)
Spec == Init /\ [][Next]_vars
(* what each message should have left behind                                 *)
Due(s, p) == s.conf.file = p /\ s.rec[2] >= s.conf.fmin /\ Passes(s.rec[2], s.own, s.conf.root)
DueOut(s) == s.conf.console /\ s.rec[2] >= s.conf.cmin /\ Passes(s.rec[2], s.own, s.conf.root)
Recs(ss) == [i \in DOMAIN ss |-> ss[i].rec]
InOrderOnce == /\ \A p \in Paths : files[p] = Recs(SelectSeq(sent, LAMBDA s : Due(s, p)))
               /\ console = Recs(SelectSeq(sent, DueOut))
NothingLost == [][\A p \in Paths : Len(files'[p]) >= Len(files[p]) /\ SubSeq(files'[p], 1, Len(files[p])) = files[p]]_vars
Emit == Len(script) = MaxOps => PrintT(<<"CASE", ToJson(script)>>)
=============================================================================
