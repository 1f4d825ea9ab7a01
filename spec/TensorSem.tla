----------------------------- MODULE TensorSem -----------------------------
(* Tensors and the operations of ONNX on them.  A tensor is an element type, a
   shape and its elements in row-major order.

   Elements are integers: a floating-point number is coded as four times its
   value (all numbers of the checked programs are multiples of 1/4 that their
   type represents exactly), with codes for NaN, the infinities and the
   extreme values of the types; -0 and 0 are one number.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NAN == 2000000001   INF == 2000000002   NINF == 2000000003   NEGZ == 2000000004
FloatTys == {"f64", "f32", "f16", "bf16", "e4m3fn", "e4m3fnuz", "e5m2", "e5m2fnuz"}
IsF(ty) == ty \in FloatTys
One(ty) == IF IsF(ty) THEN 4 ELSE 1
Norm(x) == IF x = NEGZ THEN 0 ELSE x
NormS(s) == [k \in DOMAIN s |-> Norm(s[k])]
MaxF(ty) == CASE ty = "f64" -> 2000000015 [] ty = "f32" -> 2000000011 [] ty = "bf16" -> 2000000013
              [] ty = "f16" -> 4 * 65504 [] ty = "e4m3fn" -> 4 * 448 [] ty = "e4m3fnuz" -> 4 * 240
              [] OTHER -> 4 * 57344
MinF(ty) == CASE ty = "f64" -> 2000000016 [] ty = "f32" -> 2000000012 [] ty = "bf16" -> 2000000014
              [] OTHER -> -MaxF(ty)
MaxI(ty) == CASE ty = "i8" -> 127 [] ty = "i16" -> 32767 [] ty = "i32" -> 2000000024 [] ty = "i64" -> 2000000020
              [] ty = "u8" -> 255 [] ty = "u16" -> 65535 [] ty = "u32" -> 2000000023 [] ty = "u64" -> 2000000022
MinI(ty) == CASE ty = "i8" -> -128 [] ty = "i16" -> -32768 [] ty = "i32" -> 2000000025 [] ty = "i64" -> 2000000021
              [] OTHER -> 0
SmallMax(ty) == IF ty \in {"i8", "i16", "u8", "u16"} THEN MaxI(ty) ELSE 1900000000
SmallMin(ty) == IF ty \in {"i8", "i16"} THEN MinI(ty) ELSE IF ty \in {"i32", "i64"} THEN -1900000000 ELSE 0

\* ------------------------------------------------ shapes and positions
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Front(s, n) == SubSeq(s, 1, n)
Back(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE FlatN(_, _, _)
FlatN(sh, idx, n) == IF n = 0 THEN 0 ELSE FlatN(sh, idx, n - 1) * sh[n] + idx[n]
Flat(sh, idx) == FlatN(sh, idx, Len(sh))
RECURSIVE Unflat(_, _)
Unflat(sh, k) == IF sh = <<>> THEN <<>>
                 ELSE LET n == Len(sh) IN Append(Unflat(Front(sh, n - 1), k \div sh[n]), k % sh[n])
At(t, idx) == t.v[Flat(t.sh, idx) + 1]
Mk(ty, sh, F(_)) == [ty |-> ty, sh |-> sh, v |-> [k \in 1..Prod(sh) |-> F(Unflat(sh, k - 1))]]
\* the element of t that takes part at position idx of a broadcast
BAt(t, idx) == LET r == Len(t.sh) b == Back(idx, r) IN At(t, [i \in 1..r |-> IF t.sh[i] = 1 THEN 0 ELSE b[i]])
Max2(a, b) == IF a > b THEN a ELSE b
BDim(s, n, i) == IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]
BDimOf(a, b) == IF a = 1 THEN b ELSE a
BShape(a, b) == LET n == Max2(Len(a), Len(b)) IN [i \in 1..n |-> BDimOf(BDim(a, n, i), BDim(b, n, i))]

\* --------------------------------------------------------- element functions
Lt(x, y) == x # NAN /\ y # NAN /\ ~(x = NINF /\ y = NINF) /\ ~(x = INF /\ y = INF)
            /\ (x = NINF \/ y = INF \/ (x # INF /\ y # NINF /\ x < y))
Eq(x, y) == x = y /\ x # NAN
B(p) == IF p THEN 1 ELSE 0
Un(f, ty, x) == CASE f = "neg" -> IF x = NAN THEN NAN ELSE IF x = INF THEN NINF ELSE IF x = NINF THEN INF ELSE -x
                  [] f = "inc" -> x + One(ty)
                  [] f = "dbl" -> x + x
                  [] f = "abs" -> IF x = NAN THEN NAN ELSE IF x = NINF THEN INF ELSE IF x < 0 THEN -x ELSE x
                  [] f = "relu" -> IF Lt(x, 0) THEN 0 ELSE x
                  [] f = "pos" -> B(Lt(0, x))
                  [] f = "not" -> 1 - x
Bin(f, ty, x, y) == CASE f = "add" -> x + y
                      [] f = "sub" -> x - y
                      [] f = "mul" -> IF IsF(ty) THEN (x * y) \div 4 ELSE x * y
                      [] f = "max" -> IF Lt(x, y) THEN y ELSE x
                      [] f = "min" -> IF Lt(y, x) THEN y ELSE x
                      [] f = "less" -> B(Lt(x, y))
                      [] f = "eq" -> B(Eq(x, y))
                      [] f = "and" -> x * y
                      [] f = "or" -> Max2(x, y)
                      [] f = "xor" -> B(x # y)
Trunc4(x) == IF x >= 0 THEN x \div 4 ELSE -((-x) \div 4)
RoundEven4(x) == LET q == x \div 4 r == x % 4 IN       \* floor and remainder
                 IF r < 2 THEN q ELSE IF r > 2 THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
FToI(ty, x, round) == CASE x = NAN -> 0 [] x = INF -> MaxI(ty) [] x = NINF -> MinI(ty)
                        [] OTHER -> LET n == IF round = 1 THEN RoundEven4(x) ELSE Trunc4(x) IN
                                    IF n > SmallMax(ty) THEN SmallMax(ty) ELSE IF n < SmallMin(ty) THEN SmallMin(ty) ELSE n
CastI(from, ty, x, round) == IF from = ty THEN x
                             ELSE IF ty = "i1" THEN B(x # 0)
                             ELSE IF IsF(from) THEN FToI(ty, x, round) ELSE x
Small(ty) == ty \notin {"f64", "f32", "bf16"}
CastF(from, ty, x, sat) == IF from = ty THEN x
                      ELSE IF ~IsF(from) THEN 4 * x
                      ELSE IF sat = 0 THEN x
                      ELSE IF x = NAN THEN NAN
                      ELSE IF x = INF THEN MaxF(ty) ELSE IF x = NINF THEN MinF(ty)
                      ELSE IF Small(ty) /\ x > MaxF(ty) THEN MaxF(ty)
                      ELSE IF Small(ty) /\ x < MinF(ty) THEN MinF(ty) ELSE x

\* -------------------------------------------------------------- operations
RECURSIVE Fold(_, _, _, _)
Fold(f, ty, s, n) == IF n = 1 THEN s[1] ELSE Bin(f, ty, Fold(f, ty, s, n - 1), s[n])
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Sum(s, n - 1) + s[n]
In(s, x) == \E k \in 1..Len(s) : s[k] = x
\* number of axes before axis i (1-based) that are not reduced
Kept(axes, i) == Cardinality({j \in 1..(i - 1) : ~In(axes, j - 1)})
Reduce(t, axes, keep, f) ==
  IF axes = <<>> THEN t
  ELSE LET r == Len(t.sh)
           red(i) == In(axes, i - 1)
           keptAxes == SelectSeq([i \in 1..r |-> i], LAMBDA i : ~red(i))
           redAxes == SelectSeq([i \in 1..r |-> i], LAMBDA i : red(i))
           rsh == [k \in 1..Len(redAxes) |-> t.sh[redAxes[k]]]
           osh == IF keep = 1 THEN [i \in 1..r |-> IF red(i) THEN 1 ELSE t.sh[i]]
                  ELSE [k \in 1..Len(keptAxes) |-> t.sh[keptAxes[k]]]
           pos(idx, q) == [i \in 1..r |-> IF red(i) THEN q[(i - 1) - Kept(axes, i) + 1]
                                          ELSE idx[IF keep = 1 THEN i ELSE Kept(axes, i) + 1]]
           El(idx) == LET n == Prod(rsh) IN
                      Fold(f, t.ty, [k \in 1..n |-> At(t, pos(idx, Unflat(rsh, k - 1)))], n)
       IN Mk(t.ty, osh, El)
MatMul(a, b) ==
  LET ra == Len(a.sh) rb == Len(b.sh)
      A == IF ra = 1 THEN [a EXCEPT !.sh = <<1>> \o a.sh] ELSE a
      C == IF rb = 1 THEN [b EXCEPT !.sh = b.sh \o <<1>>] ELSE b
      na == Len(A.sh) nb == Len(C.sh)
      ba == Front(A.sh, na - 2) bb == Front(C.sh, nb - 2)
      bs == BShape(ba, bb)
      M == A.sh[na - 1] K == A.sh[na] N == C.sh[nb]
      sub(s, idx) == [i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE Back(idx, Len(s))[i]]
      El(idx) == LET bi == Front(idx, Len(bs)) m == idx[Len(bs) + 1] n == idx[Len(bs) + 2] IN
                 Sum([k \in 1..K |-> Bin("mul", a.ty, At(A, sub(ba, bi) \o <<m, k - 1>>), At(C, sub(bb, bi) \o <<k - 1, n>>))], K)
      full == Mk(a.ty, bs \o <<M, N>>, El)
  IN [full EXCEPT !.sh = bs \o (IF ra = 1 THEN <<>> ELSE <<M>>) \o (IF rb = 1 THEN <<>> ELSE <<N>>)]
Concat(ts, axis) ==
  LET a == axis + 1 n == Len(ts)
      start(k) == Sum([j \in 1..n |-> ts[j].sh[a]], k - 1)
      osh == [ts[1].sh EXCEPT ![a] = start(n + 1)]
      El(idx) == LET k == CHOOSE k \in 1..n : start(k) <= idx[a] /\ idx[a] < start(k) + ts[k].sh[a] IN
                 At(ts[k], [idx EXCEPT ![a] = @ - start(k)])
  IN Mk(ts[1].ty, osh, El)
Split(t, axis, sizes) ==
  LET a == axis + 1 IN
  [k \in 1..Len(sizes) |->
     LET El(idx) == At(t, [idx EXCEPT ![a] = @ + Sum(sizes, k - 1)])
     IN Mk(t.ty, [t.sh EXCEPT ![a] = sizes[k]], El)]
Pad(t, pads, val) ==
  LET r == Len(t.sh)
      osh == [i \in 1..r |-> t.sh[i] + pads[i] + pads[r + i]]
      El(idx) == IF \A i \in 1..r : idx[i] >= pads[i] /\ idx[i] < pads[i] + t.sh[i]
                 THEN At(t, [i \in 1..r |-> idx[i] - pads[i]]) ELSE val
  IN Mk(t.ty, osh, El)
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
Gather(t, ind, axis) ==
  LET q == Len(ind.sh)
      El(idx) == LET i == At(ind, SubSeq(idx, axis + 1, axis + q)) IN
                 At(t, Front(idx, axis) \o <<Wrap(i, t.sh[axis + 1])>> \o Drop(idx, axis + q))
  IN Mk(t.ty, Front(t.sh, axis) \o ind.sh \o Drop(t.sh, axis + 1), El)
Scatter(t, ind, upd) ==
  LET q == Len(ind.sh) nd == ind.sh[q] outer == Front(ind.sh, q - 1) n == Prod(outer)
      tgt(k) == [i \in 1..nd |-> Wrap(ind.v[(k - 1) * nd + i], t.sh[i])]
      El(idx) == IF \E k \in 1..n : tgt(k) = Front(idx, nd)
                 THEN LET k == CHOOSE k \in 1..n : tgt(k) = Front(idx, nd) IN
                      At(upd, Unflat(outer, k - 1) \o Drop(idx, nd))
                 ELSE At(t, idx)
  IN Mk(t.ty, t.sh, El)
NonZero(t) ==
  LET ks == SelectSeq([k \in 1..Len(t.v) |-> k], LAMBDA k : t.v[k] # 0)
      r == Len(t.sh)
      El(idx) == Unflat(t.sh, ks[idx[2] + 1] - 1)[idx[1] + 1]
  IN Mk("i64", <<r, Len(ks)>>, El)
Map(t, ty, F(_)) == [ty |-> ty, sh |-> t.sh, v |-> [k \in DOMAIN t.v |-> F(t.v[k])]]
=============================================================================
