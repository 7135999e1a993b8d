------------------------------- MODULE LogOps -------------------------------
(* Reporters and the log they share. A configuration is in force for the     *)
(* whole process, from the moment the reporter that brings it is built. A    *)
(* record is a triple <<text, level, logger>> of interned texts.             *)
EXTENDS Integers, Sequences, FiniteSets
DEBUG == 10
INFO == 20
WARNING == 30
(* what a reporter brings: a path for the default configuration, or one of   *)
(* the configuration files of the user                                       *)
Default(path) == [file |-> path, fmin |-> INFO, console |-> TRUE, cmin |-> INFO, root |-> INFO]
Conf(kind, path) ==
  CASE kind = "path" -> Default(path)
    [] kind = "loud" -> [file |-> path, fmin |-> DEBUG, console |-> TRUE, cmin |-> WARNING, root |-> DEBUG]
    [] kind = "quiet" -> [file |-> path, fmin |-> INFO, console |-> FALSE, cmin |-> INFO, root |-> WARNING]
    [] kind = "console" -> [file |-> "", fmin |-> INFO, console |-> TRUE, cmin |-> DEBUG, root |-> INFO]
(* an argument wins over the environment, which wins over the default; a     *)
(* configuration file that is not there counts as none                       *)
Brought(e) == IF e.given # "none" THEN (IF e.given = "missing" THEN Default(e.path) ELSE Conf(e.given, e.target))
              ELSE IF e.env # "none" THEN (IF e.env = "missing" THEN Default(e.path) ELSE Conf(e.env, e.envtarget))
              ELSE Default(e.path)
Passes(lvl, own, root) == lvl >= (IF own > 0 THEN own ELSE root)
(* the files (path -> records) after a message, and the console              *)
Filed(files, c, rec, own) ==
  [p \in DOMAIN files |-> IF p = c.file /\ Passes(rec[2], own, c.root) /\ rec[2] >= c.fmin THEN Append(files[p], rec) ELSE files[p]]
Told(console, c, rec, own) == IF c.console /\ Passes(rec[2], own, c.root) /\ rec[2] >= c.cmin THEN Append(console, rec) ELSE console
(* at most one more record, which is the message                             *)
AtMostOnce(old, new, rec) == new = old \/ new = Append(old, rec)
Kept(old, new) == Len(new) >= Len(old) /\ SubSeq(new, 1, Len(old)) = old
Prints(verbosity, threshold) == verbosity > threshold
==============================================================================
