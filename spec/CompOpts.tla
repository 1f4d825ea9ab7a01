------------------------------- MODULE CompOpts -------------------------------
(* The compiler-option store, the named configuration lists, the JSON
   configuration object and the way options of environment, configuration file
   and command line combine.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Triple, LibDir        \* configured at build time / by the environment
VARIABLES h, l, st, ok
Z == [arch12 |-> 12, z14 |-> 12, arch13 |-> 13, z15 |-> 13, arch14 |-> 14, z16 |-> 14, arch15 |-> 15, z17 |-> 15]
ZNum(s) == IF s \in DOMAIN Z THEN Z[s] ELSE -1
Store0 == [triple |-> "", arch |-> "", cpu |-> "", accel |-> <<>>, lvl |-> 0, xopt |-> <<>>, xllc |-> <<>>, llvm |-> "", llvmT |-> <<>>, tag |-> "", v |-> FALSE, env |-> "",
           cfg |-> <<<<>>, <<>>, <<>>, <<>>>>]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Join(Tail(s))
ZArch(s) == IF ZNum(s.arch) # -1 THEN ZNum(s.arch) ELSE ZNum(s.cpu)
Min2(a, b) == IF a < b THEN a ELSE b
Get(s) == <<
  "--mtriple=" \o (IF s.triple # "" THEN s.triple ELSE Triple),
  IF s.arch = "" THEN "" ELSE "--march=" \o s.arch,
  IF s.cpu = "" THEN "" ELSE "--mcpu=" \o s.cpu,
  IF s.accel = <<>> THEN "--maccel=NONE" ELSE Join([i \in 1..Len(s.accel) |-> "--maccel=" \o s.accel[i]]),
  "-O" \o ToString(s.lvl),
  Join(s.xopt), Join(s.xllc), s.llvm, s.tag, IF s.v THEN "-v" ELSE "" >>
ToolCpu(s) == IF ZArch(s) # -1 THEN "arch" \o ToString(Min2(ZArch(s), 14)) ELSE s.cpu
Reads(s, o) ==
  /\ o.get = Get(s)
  /\ o.archT = (IF ZArch(s) # -1 THEN "--march=systemz" ELSE IF s.arch \in {"apple-m1", "apple-m2", "apple-m3", "apple-m4"} THEN "--march=arm64" ELSE IF s.arch = "" THEN "" ELSE "--march=" \o s.arch)
  /\ o.cpuO = s.cpu /\ o.cpuTO = ToolCpu(s)
  /\ o.cpuT = (IF ToolCpu(s) = "" THEN "" ELSE "--mcpu=" \o ToolCpu(s))
  /\ o.z = ZArch(s) /\ o.llvm = s.llvmT /\ o.xopt = s.xopt /\ o.xllc = s.xllc
  /\ o.noacc = (IF \A i \in 1..Len(s.accel) : s.accel[i] = "NONE" THEN 1 ELSE 0)
  /\ o.env = (IF s.env = "" THEN "" ELSE "--customEnvFlags=" \o s.env)
  /\ o.cfg = s.cfg
\* kinds in the order of OptionKind
Valid(k, v) == CASE k = 3 -> v.s \in {"NONE", "NNPA"} [] k = 4 -> v.n \in 0..3 [] OTHER -> TRUE
Set(s, k, v) == CASE k = 0 -> [s EXCEPT !.triple = v.s] [] k = 1 -> [s EXCEPT !.arch = v.s] [] k = 2 -> [s EXCEPT !.cpu = v.s]
  [] k = 3 -> [s EXCEPT !.accel = Append(@, v.s)] [] k = 4 -> [s EXCEPT !.lvl = v.n]
  [] k = 5 -> [s EXCEPT !.xopt = Append(@, v.s)] [] k = 6 -> [s EXCEPT !.xllc = Append(@, v.s)]
  [] k = 7 -> [s EXCEPT !.llvm = v.s, !.llvmT = v.toks] [] k = 8 -> [s EXCEPT !.tag = v.s] [] k = 9 -> [s EXCEPT !.v = TRUE]
Clear(s, k) == CASE k = 0 -> [s EXCEPT !.triple = ""] [] k = 1 -> [s EXCEPT !.arch = ""] [] k = 2 -> [s EXCEPT !.cpu = ""]
  [] k = 3 -> [s EXCEPT !.accel = <<>>] [] k = 4 -> [s EXCEPT !.lvl = 0] [] k = 5 -> [s EXCEPT !.xopt = <<>>] [] k = 6 -> [s EXCEPT !.xllc = <<>>]
  [] k = 7 -> [s EXCEPT !.llvm = "", !.llvmT = <<>>] [] k = 8 -> [s EXCEPT !.tag = ""] [] k = 9 -> [s EXCEPT !.v = FALSE]
\* a list of settings stops at the first invalid one
RECURSIVE SetAll(_, _)
SetAll(s, kvs) == IF kvs = <<>> THEN <<s, 0>> ELSE IF ~Valid(kvs[1].k, kvs[1].v) THEN <<s, 1>> ELSE SetAll(Set(s, kvs[1].k, kvs[1].v), Tail(kvs))
Key == [A |-> 1, B |-> 2]
Range(s) == {s[i] : i \in 1..Len(s)}
AddCfg(s, i, v, head) == [s EXCEPT !.cfg[i] = IF head THEN v \o @ ELSE @ \o v]
DelCfg(s, i, v) == [s EXCEPT !.cfg[i] = SelectSeq(@, LAMBDA x : x \notin Range(v))]
FAST == "--enable-unsafe-fp-math"
InitCfg(s, e) ==
  LET lib == e.target \in {"lib", "jni"}
      a == IF ~lib THEN s
           ELSE AddCfg(AddCfg(s, 3, (IF e.target = "lib" THEN <<"cruntime">> ELSE <<"jniruntime", "cruntime">>) \o (IF e.par = 1 THEN <<"ompruntime">> ELSE <<>>) \o e.libs, FALSE),
                       4, <<LibDir>> \o e.paths, FALSE)
  IN IF e.fast = 1 /\ FAST \notin Range(s.llvmT) THEN [a EXCEPT !.llvm = @ \o " " \o FAST, !.llvmT = Append(@, FAST)] ELSE a

\* --------------------------------------------------------- JSON configuration
Json0 == [loaded |-> FALSE, path |-> "", c |-> [kind |-> "obj", opts |-> "absent", list |-> <<>>, s |-> "<none>", extra |-> FALSE], files |-> <<>>]
NoFile == [kind |-> "missing"]
FileOf(j, n) == IF n \in DOMAIN j.files THEN j.files[n] ELSE NoFile
Strings(c) == LET S == SelectSeq(c.list, LAMBDA x : x.t = "str") IN [i \in 1..Len(S) |-> S[i].x]
JEmpty(c) == c.opts = "absent" /\ c.s = "<none>" /\ ~c.extra
JReads(j, o) ==
  /\ o.loaded = (IF j.loaded THEN 1 ELSE 0) /\ o.path = j.path
  /\ o.empty = (IF JEmpty(j.c) THEN 1 ELSE 0)
  /\ o.have = (IF j.c.opts = "list" /\ j.c.list # <<>> THEN 1 ELSE 0)
  /\ o.opts = (IF j.c.opts = "list" THEN Strings(j.c) ELSE <<>>)
  /\ o.arr = (IF j.c.opts = "list" THEN Len(j.c.list) ELSE -1)
  /\ o.s = j.c.s
PutFile(j, n, c) == [j EXCEPT !.files = (n :> c) @@ @]
JStep(j, e) == \* <<next, expected return>>
  CASE e.op = "file" -> <<PutFile(j, e.n, e.c), 0>>
    [] e.op = "fresh" -> <<[Json0 EXCEPT !.files = j.files], 0>>
    [] e.op = "load" -> IF j.loaded THEN <<j, IF j.path = e.n THEN 1 ELSE 0>>
                        ELSE LET f == FileOf(j, e.n) IN
                          IF f.kind = "obj" THEN <<[j EXCEPT !.loaded = TRUE, !.path = e.n, !.c = f], 1>> ELSE <<j, 0>>
    [] e.op = "store" -> IF JEmpty(j.c) THEN <<j, 0>> ELSE <<PutFile(j, e.n, j.c), 1>>

\* --------------------------------------- environment, configuration, command line
RECURSIVE Fold(_, _)
Fold(s, t) == IF t = <<>> THEN s ELSE Fold(IF t[1].k = -1 THEN s ELSE Set(s, t[1].k, t[1].v), Tail(t))
\* later sources override earlier ones; accumulating options keep all
Effective(e) == Fold(Store0, e.env \o (IF e.cfgused = 1 THEN e.config ELSE <<>>) \o e.cli)
Last(t) == LET N == SelectSeq(t, LAMBDA x : x.k = -1) IN IF N = <<>> THEN "ONNX_MLIR_FLAGS" ELSE N[Len(N)].v.s
CliOK(e) == LET s == [Effective(e) EXCEPT !.env = Last((IF e.cfgused = 1 THEN e.config ELSE <<>>) \o e.cli)] IN
  /\ "crash" \notin DOMAIN e.obs
  /\ e.obs.cfg = e.cfgused
  /\ e.obs.extra = (IF e.cfgused = 1 THEN e.configwords ELSE <<>>)
  /\ e.obs.ok = 1 /\ e.obs.in = e.input
  /\ Reads(s, e.obs.all)

Init == h \in 1..Len(Hist) /\ l = 1 /\ st = [s |-> Store0, j |-> Json0] /\ ok = TRUE
StoreOps == {"set", "clear", "multi", "add", "del", "init", "env"}
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN
           IF e.op = "cli" THEN ok' = CliOK(e) /\ st' = st
           ELSE IF e.op \in StoreOps THEN
             LET r == CASE e.op = "set" -> IF Valid(e.k, e.v) THEN <<Set(st.s, e.k, e.v), 0>> ELSE <<st.s, 1>>
                        [] e.op = "clear" -> <<Clear(st.s, e.k), 0>>
                        [] e.op = "multi" -> SetAll(st.s, e.kvs)
                        [] e.op = "add" -> <<AddCfg(st.s, Key[e.key], e.vs, e.head = 1), 0>>
                        [] e.op = "del" -> <<DelCfg(st.s, Key[e.key], e.vs), 0>>
                        [] e.op = "init" -> <<InitCfg(st.s, e), 0>>
                        [] e.op = "env" -> <<[st.s EXCEPT !.env = e.name], 0>>
             IN st' = [st EXCEPT !.s = r[1]] /\ ok' = (e.obs.rc = r[2] /\ Reads(r[1], e.obs))
           ELSE LET r == JStep(st.j, e) IN st' = [st EXCEPT !.j = r[1]] /\ ok' = (e.obs.rc = r[2] /\ JReads(r[1], e.obs))
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
