-------------------------------- MODULE CmdLine --------------------------------
(* Recorded splits and predictions against CmdWords.                          *)
EXTENDS CmdWords, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
PredictOK(e, o) ==
  LET ws == Words(e.flags) a == Ask(A0, ws) in == InputOf(e.model, a) IN
  /\ o.words = ws /\ o.tag = a.tag /\ o.ptag = a.tag /\ o.in = in
  /\ o.abs = Abs(o.cwd, in)
  /\ IF in = <<>> THEN o.pin = <<"<", "e", "x", "c", ">">>
     ELSE /\ o.pin = in
          /\ o.out = Wanted(ws, in, e.dir)
          /\ o.pout = Abs(o.cwd, Wanted(ws, in, e.dir))
          \* the compiler, given the words passed on to it, writes that very file
          /\ Written(o.applied, in) = o.out
          /\ Ask(A0, o.applied).tag = a.tag /\ Ask(A0, o.applied).pos = a.pos
OK(e) == IF e.op = "parse" THEN e.obs.words = Words(e.s) ELSE PredictOK(e, e.obs)
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE
Next == ok /\ l <= Len(Hist[h]) /\ ok' = OK(Hist[h][l]) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, ok>>
Accepted == ok
=============================================================================
