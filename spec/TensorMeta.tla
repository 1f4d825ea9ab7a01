---------------------------- MODULE TensorMeta ----------------------------
(* Metadata, addressing, printing and comparison of one tensor.  Step(st,e)*)
(* gives the state after event e and whether what the code reported (e.obs)*)
(* is what the state implies.                                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

SizeOf == <<4,1,1,2,2,4,8,8,1,2,8,4,8,8,16,2,1,1,1,1,1>>
NameOf == <<"float","uint8_t","int8_t","uint16_t","int16_t","int32_t","int64_t",
  "const char *","_Bool","_Float16","double","uint32_t","uint64_t","_Complex float",
  "_Complex double","bfloat16","FLOAT8E4M3FN","FLOAT8E4M3FNUZ","FLOAT8E5M2","UINT4","INT4">>
Size(dt) == IF dt = 0 THEN 0 ELSE SizeOf[dt]
Name(dt) == IF dt = 0 THEN "undefined" ELSE NameOf[dt]
Floats == {1, 10, 11}

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Dense(sh) == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, i + 1, Len(sh)))]
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))

Meta(s) == [null |-> 0, rank |-> Len(s.shape), shape |-> s.shape, strides |-> s.strides,
            dt |-> s.dt, size |-> Prod(s.shape) * Size(s.dt), own |-> s.own, hasdata |-> 1]

\* row-major list of all multi-indices
RECURSIVE IndexSet(_)
IndexSet(sh) ==
  IF sh = <<>> THEN <<<<>>>>
  ELSE LET rest == IndexSet(Tail(sh)) IN
       FlattenSeq([i \in 1..Head(sh) |-> [j \in 1..Len(rest) |-> <<i - 1>> \o rest[j]]])

\* ------------------------------------------------------------- printing
FracStr == <<"000000", "250000", "500000", "750000">>
Abs(x) == IF x < 0 THEN -x ELSE x
Elem(dt, v) ==
  IF dt \in Floats
  THEN (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 4) \o "." \o FracStr[(Abs(v) % 4) + 1]
  ELSE IF dt = 8 THEN "s" \o ToString(v)
  ELSE IF dt = 9 THEN (IF v = 0 THEN "0" ELSE "1")
  ELSE ToString(v)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
Join(ss, sep) == IF ss = <<>> THEN ""
                 ELSE Head(ss) \o Cat([i \in 1..(Len(ss) - 1) |-> sep \o ss[i + 1]])
RECURSIVE Nest(_, _, _)
Nest(s, d, off) ==
  IF d > Len(s.shape) THEN Elem(s.dt, s.data[off + 1])
  ELSE "[" \o Join([i \in 1..s.shape[d] |-> Nest(s, d + 1, off + (i - 1) * s.strides[d])], ", ") \o "]"
PrintD(s) == "\tdata: (" \o Nest(s, 1, 0) \o ")\n"
PrintT2(s) == Cat([i \in 1..Len(s.shape) |-> ToString(s.shape[i]) \o "x"]) \o Name(s.dt)
Br(q) == Cat([i \in 1..Len(q) |-> "[" \o ToString(q[i]) \o "]"])
PrintS(s) == "\trank = " \o ToString(Len(s.shape)) \o "\n\tdataType = " \o Name(s.dt)
  \o "\n\tnumElems = " \o ToString(Prod(s.shape)) \o "\n\tshape: " \o Br(s.shape)
  \o "\n\tstrides: " \o Br(s.strides) \o "\n\ttype: " \o PrintT2(s) \o "\n"
\* tokens of the message: [k, s]; k in lit d s t e bad orphan
RECURSIVE Msg(_, _, _)
Msg(s, m, had) ==
  IF m = <<>> THEN IF had THEN "" ELSE "\n" \o PrintS(s) \o PrintD(s) \o "\n"
  ELSE LET k == Head(m).k IN
    IF k = "lit" THEN Head(m).s \o Msg(s, Tail(m), had)
    ELSE IF k = "d" THEN PrintD(s) \o Msg(s, Tail(m), TRUE)
    ELSE IF k = "s" THEN PrintS(s) \o Msg(s, Tail(m), TRUE)
    ELSE IF k = "t" THEN PrintT2(s) \o Msg(s, Tail(m), TRUE)
    ELSE IF k = "e" THEN ""
    ELSE IF k = "orphan" THEN "omTensorPrint: orphan `%`, skip.\n"
    ELSE "omTensorPrint: unknown format `" \o Head(m).s \o "`, skip.\n" \o Msg(s, Tail(m), had)

Close(e) == /\ e.sa = e.sb
            /\ \A i \in 1..Len(e.a) : e.rt * Abs(e.b[i]) + 4 * e.at >= 4 * Abs(e.a[i] - e.b[i])
\* integers: the values themselves, not quarters
CloseI(e) == /\ e.sa = e.sb
             /\ \A i \in 1..Len(e.a) : (e.rt \div 4) * Abs(e.b[i]) + (e.at \div 4) >= Abs(e.a[i] - e.b[i])

None == [shape |-> <<>>, strides |-> <<>>, dt |-> 0, own |-> 0, data |-> <<>>]
After(st, e) ==
  CASE e.op = "create" -> [shape |-> e.shape, strides |-> Dense(e.shape), dt |-> e.dt, own |-> 0, data |-> <<>>]
    [] e.op = "setshape" -> [st EXCEPT !.shape = e.v]
    [] e.op = "setstrides" -> [st EXCEPT !.strides = e.v]
    [] e.op = "setpy" -> [st EXCEPT !.strides = [i \in 1..Len(e.v) |-> e.v[i] \div Size(st.dt)]]
    [] e.op = "setdt" -> [st EXCEPT !.dt = e.dt]
    [] e.op = "fill" -> [st EXCEPT !.data = e.v]
    [] OTHER -> st
Obs(st, s, e) ==
  CASE e.op \in {"create", "setshape", "setstrides", "setpy", "setdt", "meta"} ->
         IF e.op = "create" /\ e.how = "empty" /\ Size(e.dt) = 0 THEN e.obs.null = 1
         ELSE e.obs = Meta(s)
    [] e.op = "numelems" -> e.obs.n = Prod(s.shape)
    [] e.op = "fill" -> TRUE
    [] e.op = "print" -> e.obs.out = Msg(s, e.m, FALSE)
    [] e.op = "elem" -> e.obs.off = Dot(e.ix, s.strides) /\ e.obs.coff = e.obs.off
    [] e.op = "byoff" -> e.obs.off = e.o
    [] e.op = "indexset" -> e.obs.set = IndexSet(s.shape)
    [] e.op = "cstrides" -> e.obs.strides = Dense(s.shape)
    [] e.op = "close" -> (e.obs.close = 1) = (IF e.dt \in Floats THEN Close(e) ELSE CloseI(e))

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
vars == <<h, l, st, ok>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = None /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN
             /\ st' = After(st, e)
             /\ ok' = Obs(st, st', e)
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_vars
Accepted == ok
============================================================================
