----------------------------- MODULE Instrument -----------------------------
(* The instrumentation runtime: settings read once per initialisation, the
   time events recorded and not yet seen in the report, the report's
   destination, the start banner, and the operation reported as current.
   Trace validation: every recorded call is a step, its observation the text
   that appeared at each destination.
   Lines: P = time report, M = memory report, S = start, C = compile info.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
Full == 8192
VARIABLES h, l, st, ok
Env0 == [no |-> FALSE, notime |-> FALSE, nomem |-> FALSE, file |-> "-"]
\* the state after a print request (env and current op survive)
Fresh(env, cur) == [env |-> env, read |-> FALSE, dis |-> FALSE, tdis |-> FALSE, mdis |-> FALSE,
                    dest |-> "none", banner |-> FALSE, info |-> FALSE, pend |-> <<>>, prev |-> 0, cur |-> cur]
S0 == Fresh(Env0, <<-1, -1, 0>>)
DestOf(env) == IF env.file \in {"A", "B"} THEN env.file ELSE "s"
StartRun(s) ==
  LET r == IF s.read THEN s
           ELSE [s EXCEPT !.read = TRUE, !.dis = s.env.no,
                          !.tdis = s.env.no \/ s.env.notime, !.mdis = s.env.no \/ s.env.nomem,
                          !.dest = IF s.env.no \/ s.dest # "none" THEN s.dest ELSE DestOf(s.env)] IN
  [r EXCEPT !.banner = FALSE, !.pend = <<>>, !.prev = 0]
\* ---- what may appear
IsP(x) == x.k = "P"
Sel(out, K) == SelectSeq(out, LAMBDA x : x.k \in K)
TimesAddUp(ps, prev) == \A i \in 1..Len(ps) :
  ps[i].b - ps[i].a = (IF i = 1 THEN prev ELSE ps[i - 1].b)
Name(x) == <<x.op, x.node, x.ph>>
\* ps: time lines that appeared, a prefix of the pending ones
PrefixOK(pend, ps) == /\ Len(ps) <= Len(pend)
                      /\ \A i \in 1..Len(ps) : Name(ps[i]) = pend[i]
\* out: lines at the destination; pend: time events; mem: the memory line due
Check(s, pend, mem, all, out) ==
  LET ps == Sel(out, {"P"}) ms == Sel(out, {"M"}) bs == Sel(out, {"S"}) cs == Sel(out, {"C"}) IN
  /\ Len(ps) + Len(ms) + Len(bs) + Len(cs) = Len(out)
  /\ PrefixOK(pend, ps)
  /\ IF all THEN Len(ps) = Len(pend) ELSE TRUE
  /\ Len(pend) - Len(ps) <= 2 * Full
  /\ TimesAddUp(ps, s.prev)
  /\ ms = mem
  /\ LET due == IF out = <<>> \/ s.banner THEN 0 ELSE 1 IN
     /\ Len(bs) = due /\ Len(cs) = (IF s.info THEN due ELSE 0)
     /\ due = 1 => out[1].k = "S" /\ (s.info => out[2].k = "C" /\ out[2].txt = "{info}")
Advance(s, pend, out) ==
  LET ps == Sel(out, {"P"}) IN
  [s EXCEPT !.pend = SubSeq(pend, Len(ps) + 1, Len(pend)),
            !.banner = @ \/ out # <<>>,
            !.prev = IF ps = <<>> THEN @ ELSE ps[Len(ps)].b]
At(e, d) == IF d = "s" THEN e.obs.s ELSE IF d = "A" THEN e.obs.A ELSE IF d = "B" THEN e.obs.B ELSE <<>>
Silent(e, d) == \A x \in {"s", "A", "B"} \ {d} : At(e, x) = <<>>
MemLine(e) == [k |-> "M", op |-> e.on, node |-> e.nn, ph |-> IF e.before THEN "before" ELSE "after"]
StripMem(out) == [i \in 1..Len(out) |-> IF out[i].k = "M" THEN [k |-> "M", op |-> out[i].op, node |-> out[i].node, ph |-> out[i].ph] ELSE out[i]]
PointStep(s0, e) ==       \* <<accepted, next state>>
  LET cur == <<e.o, e.n, e.bits>>
      sc == [s0 EXCEPT !.cur = cur]
      s == IF s0.dis THEN sc ELSE IF e.init THEN StartRun(sc) ELSE sc
      t == ~s.tdis /\ e.time
      m == ~s.mdis /\ e.mem
      pend == IF s.dis \/ ~t THEN s.pend ELSE Append(s.pend, <<e.on, e.nn, IF e.before THEN "before" ELSE "after">>)
      mem == IF s.dis \/ ~m THEN <<>> ELSE <<MemLine(e)>>
      out == StripMem(At(e, s.dest)) IN
  IF s.dis THEN <<Silent(e, "none"), s>>
  ELSE <<Silent(e, s.dest) /\ Check(s, pend, mem, FALSE, out), Advance(s, pend, out)>>
ManyStep(s, e) ==
  LET evs == IF s.dis \/ s.tdis THEN <<>> ELSE [i \in 1..(2 * e.count) |->
                <<e.on, e.nodes[(((i - 1) \div 2) % 18) + 1], IF i % 2 = 1 THEN "before" ELSE "after">>]
      pend == s.pend \o evs
      out == At(e, s.dest)
      s2 == [s EXCEPT !.cur = e.last] IN
  <<Silent(e, s.dest) /\ Check(s, pend, <<>>, FALSE, out), Advance(s2, pend, out)>>
SetEnv(env, e) == CASE e.var = "ONNX_MLIR_NO_INSTRUMENT" -> [env EXCEPT !.no = e.val # "-"]
                    [] e.var = "ONNX_MLIR_NO_INSTRUMENT_TIME" -> [env EXCEPT !.notime = e.val # "-"]
                    [] e.var = "ONNX_MLIR_NO_INSTRUMENT_MEMORY" -> [env EXCEPT !.nomem = e.val # "-"]
                    [] e.var = "ONNX_MLIR_INSTRUMENT_FILE" -> [env EXCEPT !.file = e.val]
Step(s, e) ==
  CASE e.op = "env" -> <<Silent(e, "none"), [s EXCEPT !.env = SetEnv(@, e)]>>
    [] e.op = "init" -> LET s2 == StartRun([s EXCEPT !.info = e.info]) IN <<Silent(e, "none"), s2>>
    [] e.op = "point" -> PointStep(s, e)
    [] e.op = "many" -> ManyStep(s, e)
    [] e.op = "print" -> LET out == StripMem(At(e, s.dest)) IN
                         <<Silent(e, s.dest) /\ Check(s, s.pend, <<>>, TRUE, out), Fresh(s.env, s.cur)>>
    [] e.op = "getfile" ->
         LET d == IF s.dest = "none" THEN DestOf(s.env) ELSE s.dest
             s2 == [s EXCEPT !.dest = d]
             out == At(e, d) IN
         IF e.flag /\ ~s.banner
         THEN <<Silent(e, d) /\ Len(out) = (IF s.info THEN 2 ELSE 1) /\ out[1].k = "S", [s2 EXCEPT !.banner = TRUE]>>
         ELSE <<Silent(e, "none"), s2>>
Cur(s, e) == e.obs.cop = s.cur[1] /\ e.obs.cnode = s.cur[2] /\ e.obs.ctag = s.cur[3]
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE /\ st = [S0 EXCEPT !.cur = Hist[h][1].cur0]
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET r == Step(st, Hist[h][l]) IN
           /\ ok' = (r[1] /\ Cur(r[2], Hist[h][l]))
           /\ st' = r[2]
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
