------------------------------- MODULE InputGen -------------------------------
(* The input list made from a model's input signature.  A request is what its
   strings say: the signature's entries, and the shape, value and bound entries
   in order.  Numbers are fixed point (times 65536), offset and cut into limbs
   of base 10^8 so that they compare as sequences.  The random generator is an
   unknown function of the seed and of the requests made since seeding.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
B == 100000000
Num(n) == LET m == n * 65536  q == m \div B IN IF m >= 0 THEN <<5, 0, q, m % B>> ELSE <<4, 99999999, q + B, m % B>>
Raw(m) == IF m >= 0 THEN <<5, 0, m \div B, m % B>> ELSE <<4, 99999999, (m \div B) + B, m % B>>
LE(a, b) == \/ a = b
            \/ \E i \in 1..4 : (\A j \in 1..i-1 : a[j] = b[j]) /\ a[i] < b[i]
Max2(a, b) == IF LE(a, b) THEN b ELSE a
Min2(a, b) == IF LE(a, b) THEN a ELSE b
\* element type names of signatures: number, kind, name in bound requests, range
T(om, kind, np) == [om |-> om, kind |-> kind, np |-> np]
Float == {"f32", "float", "f64", "double", "f16"}
Types == [x \in {"f32", "float", "f64", "double", "f16", "i8", "i16", "i32", "i64", "ui8", "ui16", "ui32", "ui64", "i1", "string"} |->
  CASE x \in {"f32", "float"} -> T(1, "float", "float32") [] x \in {"f64", "double"} -> T(11, "float", "float64") [] x = "f16" -> T(10, "float", "float16")
    [] x = "i8" -> T(3, "int", "int8") [] x = "i16" -> T(5, "int", "int16") [] x = "i32" -> T(6, "int", "int32") [] x = "i64" -> T(7, "int", "int64")
    [] x = "ui8" -> T(2, "uint", "uint8") [] x = "ui16" -> T(4, "uint", "uint16") [] x = "ui32" -> T(12, "uint", "uint32") [] x = "ui64" -> T(13, "uint", "uint64")
    [] x = "i1" -> T(9, "bool", "bool_") [] x = "string" -> T(8, "string", "str")]
Least(x) == CASE x = "i8" -> Num(-128) [] x = "i16" -> <<4, 99999999, 99999978, 52516352>> [] x = "i32" -> <<4, 99999999, 98592625, 11644672>>
              [] x = "i64" -> <<4, 39553709, 1926854, 12646912>> [] x = "string" -> <<4, 99999999, 98592625, 11644672>> [] OTHER -> Num(0)
Most(x) == CASE x = "i8" -> Num(127) [] x = "ui8" -> Num(255) [] x = "i16" -> <<5, 0, 21, 47418112>> [] x = "ui16" -> <<5, 0, 42, 94901760>>
             [] x \in {"i32", "string"} -> <<5, 0, 1407374, 88289792>> [] x = "ui32" -> <<5, 0, 2814749, 76645120>>
             [] x = "i64" -> <<5, 60446290, 98073145, 87287552>> [] x = "ui64" -> <<6, 20892581, 96146291, 74640640>>
\* a bound: rounded down and up to fixed point, to integers, and whether above 1/2
Bd(fl, ce, ifl, ice, gt) == [fl |-> fl, ce |-> ce, ifl |-> ifl, ice |-> ice, gt |-> gt]
IntBd(n) == Bd(Num(n), Num(n), Num(n), Num(n), n > 0)
DefLo(x) == CASE Types[x].kind = "float" -> Bd(Raw(-6554), Raw(-6553), Num(-1), Num(0), FALSE) [] Types[x].kind = "int" -> IntBd(-10) [] OTHER -> IntBd(0)
DefHi(x) == CASE Types[x].kind = "float" -> Bd(Raw(6553), Raw(6554), Num(0), Num(1), FALSE) [] Types[x].kind = "bool" -> IntBd(1) [] Types[x].kind = "string" -> IntBd(63) [] OTHER -> IntBd(10)
\* the last of a sequence of entries that says something about input i (from 0)
Covers(en, i) == en.lo = -1 \/ (en.lo <= i /\ i <= en.hi)
LastOf(S, D, F(_)) == LET Y == {j \in 1..Len(S) : F(S[j])} IN IF Y = {} THEN D ELSE S[CHOOSE j \in Y : \A k \in Y : k <= j]
NoShape == [lo |-> 0, hi |-> 0, dims |-> <<>>]
NoVal == [lo |-> 0, hi |-> 0, min |-> <<>>, max |-> <<>>, soz |-> <<>>]
ShapeFor(e, i) == LastOf(e.shape, NoShape, LAMBDA x : Covers(x, i)).dims
ValFor(e, i) == LastOf(e.vals, NoVal, LAMBDA x : Covers(x, i))
Alias(np) == IF np = "bool" THEN "bool_" ELSE np
BoundFor(S, ty, def) == LastOf(S, [np |-> "", v |-> def], LAMBDA x : Alias(x.np) = Types[ty].np).v
BadIds(S, n) == \E j \in 1..Len(S) : ~(S[j].lo = -1 \/ (0 <= S[j].lo /\ S[j].lo <= S[j].hi /\ S[j].hi < n))
\* dimensions: the signature's, with those left open taken from the request
DimFor(e, i, d) == LET s == e.sig[i + 1].dims[d]
                       o == IF d <= Len(ShapeFor(e, i)) THEN ShapeFor(e, i)[d] ELSE -1
                   IN IF s < 0 THEN o ELSE IF o >= 0 /\ o # s THEN -2 ELSE s
Dims(e, i) == [d \in 1..Len(e.sig[i + 1].dims) |-> DimFor(e, i, d)]
LoFor(e, i) == LET ty == e.sig[i + 1].ty v == ValFor(e, i) IN IF v.min # <<>> THEN v.min[1] ELSE BoundFor(e.lbs, ty, DefLo(ty))
HiFor(e, i) == LET ty == e.sig[i + 1].ty v == ValFor(e, i) IN IF v.max # <<>> THEN v.max[1] ELSE BoundFor(e.ubs, ty, DefHi(ty))
Npnames == {Types[x].np : x \in DOMAIN Types} \cup {"bool", "complex64", "complex128", "bfloat16"}
Bad(e) ==                                              \* must be rejected
  \/ e.malformed
  \/ \E i \in 1..Len(e.sig) : e.sig[i].ty \notin DOMAIN Types
  \/ BadIds(e.shape, Len(e.sig)) \/ BadIds(e.vals, Len(e.sig))
  \/ \E j \in 1..Len(e.lbs) : e.lbs[j].np \notin Npnames
  \/ \E j \in 1..Len(e.ubs) : e.ubs[j].np \notin Npnames
  \/ \E j \in 1..Len(e.shape) : \E d \in 1..Len(e.shape[j].dims) : e.shape[j].dims[d] < -1
  \/ \E j \in 1..Len(e.vals) : e.vals[j].soz # <<>> /\ (e.vals[j].min # <<>> \/ e.vals[j].max # <<>> \/ e.vals[j].soz[1] < -1)
  \/ \E i \in 0..Len(e.sig)-1 :
       \/ \E d \in 1..Len(Dims(e, i)) : Dims(e, i)[d] < 0
       \/ IF ValFor(e, i).soz # <<>> THEN Len(Dims(e, i)) = 0 \/ (e.sig[i + 1].ty = "string" /\ \A d \in 1..Len(Dims(e, i)) : Dims(e, i)[d] # 0)
          ELSE ~LE(LoFor(e, i).fl, HiFor(e, i).ce)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
InRange(ty, lo, hi, t) ==
  IF t.n = 0 THEN TRUE
  ELSE CASE Types[ty].kind = "float" -> LE(lo.fl, t.min) /\ LE(t.max, hi.ce)
         [] Types[ty].kind = "bool" -> LE(IF lo.gt THEN Num(1) ELSE Num(0), t.min) /\ LE(t.max, IF hi.gt THEN Num(1) ELSE Num(0))
         [] OTHER -> LE(Min2(Max2(lo.ifl, Least(ty)), Most(ty)), t.min) /\ LE(t.max, Max2(Min2(hi.ice, Most(ty)), Least(ty)))
SozOK(dims, n, t) ==
  LET inner == dims[Len(dims)]
      rows == Prod(SubSeq(dims, 1, Len(dims) - 1))
  IN inner = 0 \/ (/\ Len(t.rows) = rows
     /\ \A r \in 1..rows : IF n >= 0 THEN t.rows[r] = (IF n < inner THEN n ELSE inner)
                           ELSE 1 <= t.rows[r] /\ t.rows[r] <= (IF inner > 1 THEN inner - 1 ELSE 1))
\* an empty tensor of strings asked to hold a sequence of ones: up to the code
Open(e) == \E i \in 0..Len(e.sig)-1 : e.sig[i + 1].ty = "string" /\ ValFor(e, i).soz # <<>>
GenOK(e, o) ==
  /\ o.live = 0
  /\ IF o.list = 0 /\ Open(e) THEN TRUE ELSE IF Bad(e) THEN o.list = 0
     ELSE /\ o.list = 1 /\ Len(o.t) = Len(e.sig)
          /\ \A i \in 1..Len(e.sig) :
               LET t == o.t[i] ty == e.sig[i].ty d == Dims(e, i - 1) IN
               /\ t.om = Types[ty].om /\ t.dims = d /\ t.n = Prod(d) /\ t.wf = 1
               /\ IF ValFor(e, i - 1).soz # <<>> THEN SozOK(d, ValFor(e, i - 1).soz[1], t)
                  ELSE InRange(ty, LoFor(e, i - 1), HiFor(e, i - 1), t)
\* the strings of a tensor, back to back behind their addresses
StrsOK(e, o) == o.back = e.strs /\ o.layout = 1 /\ o.live = 0
St0 == [pos |-> <<>>, seen |-> {}]
Step(s, e) ==
  CASE e.op = "seed" -> [s EXCEPT !.pos = <<e.seed>>]
    [] e.op = "gen" -> IF s.pos = <<>> THEN s ELSE [pos |-> Append(s.pos, e.rid), seen |-> s.seen \cup {<<Append(s.pos, e.rid), e.obs.dig>>}]
    [] OTHER -> s
Repeats(s, e) == s.pos = <<>> \/ \A x \in s.seen : x[1] = Append(s.pos, e.rid) => x[2] = e.obs.dig
OK(s, e) == CASE e.op = "seed" -> e.obs.seed = e.seed
              [] e.op = "strs" -> StrsOK(e, e.obs)
              [] e.op = "gen" -> GenOK(e, e.obs) /\ Repeats(s, e)
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = St0 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN ok' = OK(st, e) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
