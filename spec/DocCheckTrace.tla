----------------------------- MODULE DocCheckTrace -----------------------------
(* Decides recorded runs of the document checker: e.files the reference files,
   e.docs the documents that are checked (with exclusions already applied by
   path), e.cmds the command checks.  The run passes iff everything agrees.   *)
EXTENDS DocCheck
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
RECURSIVE Run(_, _, _)
Run(s, d, files) == IF d = <<>> THEN s.m = "out" ELSE Run(Scan(s, Head(d), files), Tail(d), files)
\* p is excluded when an excluded path is p or one of p's parents (paths are sequences of names)
Excluded(p, ex) == \E i \in 1..Len(ex) : Len(ex[i]) <= Len(p) /\ SubSeq(p, 1, Len(ex[i])) = ex[i]
Passes(e) ==
  \A i \in 1..Len(e.docs) : LET d == e.docs[i] IN
     Excluded(d.path, e.ex) \/
     (CASE d.ext = "md" -> Run(Start, d.lines, e.files)
        [] d.ext = "dc" -> \A j \in 1..Len(d.cmds) : LET c == d.cmds[j] IN
               c.cfg = "ok" /\ c.file \in DOMAIN e.texts /\ c.runs /\ c.out = e.texts[c.file]
        [] OTHER -> TRUE)
TInit == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE /\ doc = <<>> /\ st = Start
TNext == ok /\ l <= Len(Hist[h]) /\ ok' = ((Hist[h][l].obs.ok = 1) = Passes(Hist[h][l])) /\ l' = l + 1 /\ h' = h /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<h, l, ok, doc, st>>
Accepted == ok
=============================================================================
