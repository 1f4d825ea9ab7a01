------------------------------- MODULE PySess -------------------------------
(* What crosses the border between Python arrays and a model.
   An array is a view of a buffer: an offset and, per axis, a length and a
   step, both counted in elements.  The model has to be shown the logical
   elements of the view; the caller has to get what the model returned.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
vars == <<h, l, st, ok>>
Supported == {"f2", "f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "?", "c8", "c16", "O"}
BadOut == {"fp8", "bf16", "nullt", "behind"}
None == [b |-> 0, off |-> 0, shape |-> <<>>, str |-> <<>>, dt |-> ""]
Start == [bases |-> <<>>, views |-> <<>>, outs |-> <<>>, open |-> TRUE]
Num(dt, v) == IF dt = "?" THEN v % 2 ELSE v
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
CStr(s) == [i \in 1..Len(s) |-> Prod(SubSeq(s, i + 1, Len(s)))]
FStr(s) == [i \in 1..Len(s) |-> Prod(SubSeq(s, 1, i - 1))]
\* the logical elements of a view, last axis fastest
Place(v, n) == LET c == CStr(v.shape) IN FoldLeft(LAMBDA a, i : a + ((n \div c[i]) % v.shape[i]) * v.str[i], v.off, [i \in 1..Len(v.shape) |-> i])
Elems(s, v) == [n \in 1..Prod(v.shape) |-> IF v.dt \in Supported THEN s.bases[v.b][Place(v, n - 1) + 1] ELSE 0]
Insert(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
ViewOf(v, f, x) ==
  CASE f = "shape" -> [v EXCEPT !.shape = x, !.str = CStr(x)]
    [] f = "shapeF" -> [v EXCEPT !.shape = x, !.str = FStr(x)]
    [] f = "perm" -> [v EXCEPT !.shape = [i \in 1..Len(x) |-> v.shape[x[i]]], !.str = [i \in 1..Len(x) |-> v.str[x[i]]]]
    [] f = "slice" -> [v EXCEPT !.off = @ + (IF x[4] > 0 THEN x[2] * v.str[x[1]] ELSE 0), !.shape[x[1]] = x[4], !.str[x[1]] = @ * x[3]]
    [] f = "new" -> [v EXCEPT !.shape = Insert(@, x[1], 1), !.str = Insert(@, x[1], 0)]
    [] f = "index" -> [v EXCEPT !.off = @ + x[2] * v.str[x[1]], !.shape = Drop(@, x[1]), !.str = Drop(@, x[1])]
    [] f = "bcast" -> [v EXCEPT !.shape[x[1]] = x[2], !.str[x[1]] = 0]
    [] f = "ro" -> v
\* what the model is shown for a view
Shown(s, v) == [dt |-> v.dt, shape |-> v.shape, elems |-> Elems(s, v)]
View(s, i) == s.views[i]
RECURSIVE Out(_, _, _)
Out(ins, os, p) ==
  CASE os[p].k \in {"echo", "aligned", "alias"} -> ins[os[p].a + 1]
    [] os[p].k = "dup" -> Out(ins, os, os[p].a + 1)
    [] os[p].k \in {"val", "valal", "const", "str"} -> [dt |-> "", shape |-> <<3>>, elems |-> <<>>]
Fits(o, x) == IF x.dt = "" THEN o.shape = x.shape ELSE o = x
\* the buffer of an output: 0 when the caller gets a copy
Buf(ins, os, p, mode, n) ==
  LET r == IF os[p].k = "dup" THEN os[p].a + 1 ELSE p IN
  IF mode \in {"c", "sc"} THEN 0
  ELSE IF os[r].k \in {"echo", "aligned"} THEN (IF ins[os[r].a + 1].dt = "O" THEN 0 ELSE n + r)
  ELSE IF os[r].k \in {"val", "valal"} THEN n + r ELSE 0
Held(s) == Cardinality({s.outs[i].g : i \in DOMAIN s.outs} \ {0})
Fails(s, e) == ~s.open \/ e.noentry = 1 \/ e.fail # "" \/ (\E i \in 1..Len(e.ins) : s.views[e.ins[i]].dt \notin Supported) \/ (\E p \in 1..Len(e.outs) : e.outs[p].k \in BadOut)
Healthy(s, o) == o.leak = 0 /\ o.bad = 0 /\ o.named = Held(s)
Contents(s) == [i \in 1..Len(s.bases) |-> s.bases[i]]
Extend(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Step(s, e) ==
  CASE e.op = "base" ->
         LET vals == IF e.dt \in Supported THEN [i \in 1..Len(e.vals) |-> Num(e.dt, e.vals[i])] ELSE [i \in 1..Len(e.vals) |-> 0] IN
         [s EXCEPT !.bases = Append(@, vals),
                   !.views = Append(@, [b |-> Len(s.bases) + 1, off |-> 0, shape |-> <<Len(e.vals)>>, str |-> <<1>>, dt |-> e.dt])]
    [] e.op = "view" -> [s EXCEPT !.views = Append(@, ViewOf(s.views[e.of], e.f, e.x))]
    [] e.op = "run" ->
         IF Fails(s, e) THEN s
         ELSE LET ins == [i \in 1..Len(e.ins) |-> Shown(s, s.views[e.ins[i]])]
                  got == [p \in 1..Len(e.outs) |-> [x |-> e.obs.outs[p], g |-> Buf(ins, e.outs, p, e.mode, 100 * e.stamp)]]
              IN [s EXCEPT !.outs = [y \in DOMAIN s.outs \cup Range(e.keep) |-> IF y \in Range(e.keep) THEN got[CHOOSE j \in 1..Len(e.keep) : e.keep[j] = y] ELSE s.outs[y]]]
    [] e.op = "drop" -> [s EXCEPT !.outs = [y \in DOMAIN @ \ Range(e.outs) |-> @[y]]]
    [] e.op = "scratch" -> IF e.forget = 1 THEN [s EXCEPT !.bases = <<>>, !.views = <<>>]
                           ELSE [s EXCEPT !.bases = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> IF e.dts[i] \in Supported THEN Num(e.dts[i], 63) ELSE 0]]]
    [] e.op = "close" -> [s EXCEPT !.open = FALSE]
    [] OTHER -> s
\* the event agrees with state s (after its step)
Agrees(s0, s, e) ==
  LET o == e.obs IN
  /\ "exc" \notin DOMAIN o
  /\ Healthy(s, o)
  /\ CASE e.op = "base" -> o.elems = s.bases[Len(s.bases)]
       [] e.op = "view" -> LET v == s.views[Len(s.views)] IN o.shape = v.shape /\ o.elems = Elems(s, v)
       [] e.op = "run" ->
            LET ins == [i \in 1..Len(e.ins) |-> Shown(s, s.views[e.ins[i]])] IN
            /\ o.after = Contents(s)
            /\ o.err = (IF Fails(s0, e) THEN 1 ELSE 0)
            /\ IF e.noentry = 1 \/ (\E i \in 1..Len(ins) : ins[i].dt \notin Supported) THEN o.seen = <<>> ELSE o.seen = ins
            /\ IF Fails(s0, e) THEN o.outs = <<>>
               ELSE Len(o.outs) = Len(e.outs) /\ \A p \in 1..Len(e.outs) : Fits(o.outs[p], Out(ins, e.outs, p))
       [] e.op = "scratch" -> o.after = Contents(s)
       [] e.op = "look" -> {o.vals[i].id : i \in 1..Len(o.vals)} = DOMAIN s.outs /\
            \A i \in 1..Len(o.vals) : LET x == s.outs[o.vals[i].id].x IN
               o.vals[i].dt = x.dt /\ o.vals[i].shape = x.shape /\ o.vals[i].elems = x.elems
       [] e.op = "fill" -> IF e.bad = 1 THEN o.err = 1
            ELSE /\ o.err = 0 /\ Len(o.outs) = Len(e.want)
                 /\ \A i \in 1..Len(e.want) : o.outs[i].dt = e.want[i].dt /\ o.outs[i].shape = e.want[i].shape /\ o.outs[i].good = 1
       [] OTHER -> TRUE
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = Start /\ ok = TRUE
Next == /\ l <= Len(Hist[h]) /\ ok
        /\ LET e == Hist[h][l]
               s == IF "exc" \in DOMAIN e.obs THEN st ELSE Step(st, e) IN
           /\ st' = s
           /\ ok' = (IF "exc" \in DOMAIN e.obs THEN FALSE ELSE Agrees(st, s, e))
        /\ l' = l + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
