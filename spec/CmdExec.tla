-------------------------------- MODULE CmdExec --------------------------------
(* A command under construction and its executions.  Programs are described by
   what starting them means: they run (and end as told), are missing or cannot
   be executed.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
NotFound == 16
NotExecutable == 17
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # "")
St0 == [kind |-> "none", args |-> <<>>, log |-> "", cwd |-> ""]
Step(s, e) ==
  CASE e.op = "new" -> IF e.kind = "empty" THEN [s EXCEPT !.kind = "none", !.args = <<>>] ELSE [s EXCEPT !.kind = e.kind, !.args = <<e.base>>, !.log = ""]
    [] e.op = "app" -> [s EXCEPT !.args = @ \o NonEmpty(<<e.arg>>)]
    [] e.op = "list" -> [s EXCEPT !.args = @ \o NonEmpty(e.list)]
    [] e.op = "reset" -> [s EXCEPT !.args = <<@[1]>>]
    [] e.op = "redir" -> [s EXCEPT !.log = e.log]
    [] e.op = "cd" -> [s EXCEPT !.cwd = e.dir]
    [] e.op = "exec" -> s
RunsIn(s, e) == IF e.wdir = "" THEN s.cwd ELSE e.wabs
ExecOK(s, e, o) ==
  /\ o.pcwd = s.cwd              \* the caller stays where it was
  /\ o.pend = e.pending          \* and its own buffered output is written once
  /\ o.args = s.args
  /\ IF e.wdir # "" /\ ~e.wok THEN o.rc = -1 /\ o.runs = 0 /\ o.ownany = 0 /\ o.log = e.before
     ELSE IF s.kind = "missing" THEN o.rc = NotFound /\ o.runs = 0
     ELSE IF s.kind = "noexec" THEN o.rc = NotExecutable /\ o.runs = 0
     ELSE /\ o.runs = 1
          /\ o.argv = s.args /\ o.cwd = RunsIn(s, e)
          /\ o.rc = (IF e.what = "exit" THEN e.n ELSE -1)
          /\ (e.what = "sig" => o.named = 1)
          /\ IF s.log = "" THEN o.own = 1 ELSE o.ownany = 0 /\ o.log = "OUT;ERR;END\n"
OK(s, e) ==
  IF e.op = "exec" THEN ExecOK(s, e, e.obs)
  ELSE IF e.op = "new" /\ e.kind = "empty" THEN "exc" \in DOMAIN e.obs
  ELSE "exc" \notin DOMAIN e.obs /\ e.obs.args = Step(s, e).args
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = St0 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN ok' = OK(st, e) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
