------------------------------- MODULE CompileDrv ------------------------------
(* Compilation sessions: a local compiler, or one in a container started by
   docker or podman.  The state is the session, the outputs on disk, the images
   of each engine, and the world (how compiler and engines behave).           *)
EXTENDS CmdWords, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
None == <<"<", "e", "x", "c", ">">>
\* ---- what a status means to the caller
Desc == <<"Invalid compiler option", "Invalid input file format", "Cannot open input file", "Cannot open output file", "Cannot access temporary file", "Invalid ONNX format",
  "Failed to lower MLIR to LLVM", "Failed to optimize LLVM", "Failed to lower LLVM to object", "Failed to generate JNI object", "Failed to generate JNI",
  "Failed to link object to library", "Invalid compiler options", "Compilation failed", "Compiler failed to execute successfully",
  "Command executable not found (check PATH)", "Command not executable", "Command execution failed", "Input file is a hardlink, which is not allowed">>
Says(n) == IF n \in 1..19 THEN Desc[n] ELSE "Unknown error code"
EndsIn(msg, d) == d = msg   \* the text after the last ": " of the message
Crash == 15
\* ---- images
Default == "ghcr.io/onnxmlir/onnx-mlir"
Known == [x \in {Default, "ghcr.io/onnxmlir/onnx-mlir-dev", "onnxmlir/onnx-mlir-dev"} |->
            IF x = Default THEN "onnx-mlir" ELSE "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir"]
Usable(w, g) == g \in {w.present[i] : i \in 1..Len(w.present)} /\ g \notin {w.bad[i] : i \in 1..Len(w.bad)}
Engine(w, p) == IF p # "Auto" THEN (IF Usable(w, p) THEN p ELSE "")
                ELSE IF Usable(w, "docker") THEN "docker" ELSE IF Usable(w, "podman") THEN "podman" ELSE ""
\* ---- records of what was started
Of(rs, k) == SelectSeq(rs, LAMBDA r : r.k = k)
Verb(rs, v) == SelectSeq(rs, LAMBDA r : r.k = "eng" /\ Len(r.a) > 0 /\ r.a[1] = v)
CC(rs) == SelectSeq(rs, LAMBDA r : r.k = "cc" /\ r.ver = 0)
Seqs(s) == {s[i] : i \in 1..Len(s)}
\* ---- failing getters
Nothing(o) == o.there = 1 => o.succ = 0 /\ o.has = 0 /\ o.out = None /\ o.cst = None /\ o.tag = None
Reports(r, o) ==
  IF r.succ = 0 THEN Nothing(o)
  ELSE /\ o.there = 1 /\ o.succ = 1 /\ o.tag = r.tag
       /\ o.out # <<>> /\ o.out[1] = "/" /\ Norm(o.out) = r.out
       /\ IF r.cst = <<"?">> THEN TRUE ELSE o.cst = r.cst \/ (r.cst # <<>> /\ o.cst # <<>> /\ o.cst[1] = "/" /\ Norm(o.cst) = r.cst)
       /\ o.has = (IF o.cst = <<>> THEN 0 ELSE 1)
R0 == [succ |-> 0, out |-> <<>>, cst |-> <<>>, tag |-> <<>>]
St0 == [kind |-> "none", cc |-> "", eng |-> "", img |-> "", res |-> R0, files |-> {}, imgs |-> {}, w |-> [none |-> 0]]
\* ---- the words given to the compiler, apart from names
RECURSIVE Rest(_)
Rest(ws) == IF ws = <<>> THEN <<>>
  ELSE LET w == ws[1] r == Tail(ws) IN
    IF w = O /\ r # <<>> THEN Rest(Tail(r))
    ELSE IF Starts(w, OEq) \/ w = <<>> \/ w[1] # "-" THEN Rest(r)
    ELSE <<w>> \o Rest(r)
\* ---- construction
LocalOK(s, e, o) ==
  LET fails == e.verbose = 1 /\ (e.kind # "kid" \/ s.w.version # 0) IN
  /\ o.exc = (IF fails THEN 1 ELSE 0) /\ o.there = 1 - o.exc
  /\ CC(o.recs) = <<>> /\ Of(o.recs, "eng") = <<>>
  /\ Nothing(o) /\ (o.there = 1 => o.mode = 0 /\ o.eng = "")
ContImg(e) == IF e.image = "" THEN Default ELSE e.image
Pulls(s, e) == LET g == Engine(s.w, e.engine) IN g # "" /\ <<g, ContImg(e)>> \notin s.imgs /\ e.pull = 1
ContGood(s, e) ==
  LET g == Engine(s.w, e.engine) IN
  /\ g # "" /\ (<<g, ContImg(e)>> \in s.imgs \/ (e.pull = 1 /\ s.w.pull = 0))
  /\ (e.path # "" \/ ContImg(e) \in DOMAIN Known)
ContOK(s, e, o) ==
  LET g == Engine(s.w, e.engine) ps == Verb(o.recs, "pull") IN
  /\ CC(o.recs) = <<>>
  /\ Nothing(o)
  /\ Of(SelectSeq(o.recs, LAMBDA r : r.k = "cc" /\ r.nat = 1), "cc") = <<>>
  /\ IF s.w.dind = 1 THEN (o.sock = 0 => o.exc = 1 /\ ps = <<>>)
     ELSE /\ o.exc = (IF ContGood(s, e) THEN 0 ELSE 1) /\ o.there = 1 - o.exc
          /\ Len(ps) = (IF Pulls(s, e) THEN 1 ELSE 0)
          /\ \A i \in 1..Len(ps) : ps[i].by = g /\ ps[i].a = <<"pull", ContImg(e)>>
          /\ (o.there = 1 => o.mode = 1 /\ o.eng = g)
\* ---- compilation
Models(e) == Seqs(e.models)
Dirs(e) == Seqs(e.dirs)
Parent(p) == SubSeq(p, 1, Max(At(p, "/")) - 1)
Plan(s, e, cwd) ==
  LET ws == Words(e.flags) a == Ask(A0, ws) in == InputOf(e.model, a)
      ia == Norm(Abs(cwd, in)) wb == WantedBase(ws, in, e.dir)
      out == Norm(Abs(cwd, wb \o Suffix(a.target))) cst == Norm(Abs(cwd, wb \o <<".", "c", "o", "n", "s", "t", "a", "n", "t", "s", ".", "b", "i", "n">>))
      w == s.w
      starts == in # <<>> /\ ia \in Models(e)
      prog == IF s.kind = "local" /\ e.cc # "" THEN e.cc ELSE IF s.kind = "local" THEN s.cc ELSE "kid"
      present == s.kind = "cont" => s.eng \in Seqs(w.present)
      healthy == s.kind = "cont" => s.eng \notin Seqs(w.bad)
      runs == starts /\ prog = "kid" /\ present /\ healthy /\ (s.kind = "cont" => w.run = 0)
      clean == w.what = "exit" /\ w.n = 0
      canWrite == Parent(out) \in Dirs(e)
      tries == runs /\ (clean \/ w.partial = 1)
      wrote == IF ~tries \/ ~canWrite THEN {} ELSE (IF w.noout = 1 THEN {} ELSE {out}) \cup (IF w.const = 1 /\ a.target # "mlir" THEN {cst} ELSE {})
      blocked == tries /\ ~canWrite /\ (w.noout = 0 \/ (w.const = 1 /\ a.target # "mlir"))
      status == IF ~runs THEN (IF ~present THEN 16 ELSE IF ~healthy THEN -1 ELSE IF s.kind = "cont" THEN w.run ELSE IF prog = "missing" THEN 16 ELSE 17)
                ELSE IF blocked THEN 4 ELSE IF w.what = "sig" THEN -1 ELSE w.n
      files == s.files \cup wrote
      good == starts /\ status = 0 /\ out \in files
  IN [ws |-> ws, engrun |-> starts /\ s.kind = "cont" /\ present, ia |-> ia, out |-> out, starts |-> starts, runs |-> runs, wrote |-> wrote, status |-> status, files |-> files, good |-> good,
      res |-> IF good THEN [succ |-> 1, out |-> out, tag |-> a.tag, cst |-> IF a.target = "mlir" THEN <<"?">> ELSE IF cst \in files THEN cst ELSE <<>>] ELSE R0]
CompileOK(s, e, o) ==
  LET p == Plan(s, e, o.cwd) cs == CC(o.recs) rs == Verb(o.recs, "run") IN
  IF s.kind = "none" THEN o.recs = <<>>
  ELSE
  /\ o.exc = (IF p.good THEN 0 ELSE 1)
  /\ Reports(p.res, o)
  /\ Verb(o.recs, "pull") = <<>>
  /\ Len(rs) = (IF p.engrun THEN 1 ELSE 0)
  /\ \A i \in 1..Len(rs) : rs[i].by = s.eng /\ s.img \in Seqs(rs[i].a)
  /\ Len(cs) = (IF p.runs THEN 1 ELSE 0)
  /\ \A i \in 1..Len(cs) : cs[i].nat = (IF s.kind = "local" THEN 1 ELSE 0)
  \* the compiler gets the words, names the caller's file, and writes the one announced
  /\ p.runs => /\ Rest(cs[1].w) = Rest(p.ws)
               /\ Len(Ask(A0, cs[1].w).pos) = 1
               /\ Of(o.recs, "in") # <<>> /\ Of(o.recs, "in")[1].p = p.ia
               /\ {r.p : r \in Seqs(Of(o.recs, "out"))} \ {p.out} \subseteq p.wrote
               /\ p.wrote \subseteq {r.p : r \in Seqs(Of(o.recs, "out"))}
               /\ (e.log # <<>> => o.log = 1)
  \* a failure names its kind
  /\ (p.starts /\ p.status # 0) =>
       IF p.status = -1 THEN (s.kind = "local" => o.why = Says(Crash))
       ELSE IF p.status < -1 THEN o.why = Says(Crash)
       ELSE o.why = Says(p.status)
Step(s, e) ==
  CASE e.op = "env" -> [s EXCEPT !.w = e.world]
    [] e.op = "images" -> [s EXCEPT !.imgs = {<<x[1], x[2]>> : x \in Seqs(e.images)}]
    [] e.op = "clean" -> [s EXCEPT !.files = {}]
    [] e.op = "cd" -> s
    [] e.op = "local" -> [s EXCEPT !.kind = IF e.obs.exc = 0 THEN "local" ELSE "none", !.cc = e.kind, !.res = R0]
    [] e.op = "cont" -> [s EXCEPT !.kind = IF e.obs.exc = 0 THEN "cont" ELSE "none", !.eng = Engine(s.w, e.engine), !.img = ContImg(e), !.res = R0,
                                  !.imgs = IF Pulls(s, e) /\ s.w.pull = 0 /\ s.w.dind = 0 THEN @ \cup {<<Engine(s.w, e.engine), ContImg(e)>>} ELSE @]
    [] e.op = "compile" -> IF s.kind = "none" THEN s ELSE LET p == Plan(s, e, e.obs.cwd) IN [s EXCEPT !.files = p.files, !.res = p.res]
OK(s, e) ==
  LET o == e.obs IN
  CASE e.op = "local" -> LocalOK(s, e, o)
    [] e.op = "cont" -> ContOK(s, e, o)
    [] e.op = "compile" -> CompileOK(s, e, o)
    [] OTHER -> o.recs = <<>> /\ Reports(s.res, o)
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = St0 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN ok' = OK(st, e) /\ st' = IF ok' THEN Step(st, e) ELSE st
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
