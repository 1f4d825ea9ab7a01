------------------------------ MODULE OnnxOps ------------------------------
(* The operators of ONNX as functions of their inputs.  Outs(env, e) are the
   results of node e whose input k is the tensor env[e.ins[k]] (0: input not
   given); every attribute of the node is a field of e with its effective
   value.  The bodies of If, Loop and Scan are sequences of nodes whose results
   are appended to the environment of the surrounding graph.

   Results that are not multiples of 1/4 carry the field ap: their elements are
   the values times a thousand, rounded, and are compared with a tolerance.
   Operators of ApOps accept such tensors too: their results carry in er a
   bound, in thousandths, on what the rounding of the operands amounts to.     *)
EXTENDS TensorSem, FnTables

\* ------------------------------------------------------------ arithmetic
Abs(x) == IF x < 0 THEN -x ELSE x
FDiv(x, y) == IF y < 0 THEN (-x) \div (-y) ELSE x \div y                 \* floor
TDiv(x, y) == IF (x < 0) = (y < 0) THEN Abs(x) \div Abs(y) ELSE -(Abs(x) \div Abs(y))
CeilDiv(x, y) == -((-x) \div y)
RDiv(x, y) == IF y < 0 THEN FDiv(2 * (-x) + (-y), 2 * (-y)) ELSE FDiv(2 * x + y, 2 * y)  \* nearest
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
RECURSIVE ISqrtN(_, _, _)
ISqrtN(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN
                     IF m <= n \div m THEN ISqrtN(n, m, hi) ELSE ISqrtN(n, lo, m - 1)
ISqrt(n) == ISqrtN(n, 0, Min2(n, 46340))
Bits == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
BitOf(x, k) == (x \div Bits[k]) % 2              \* two's complement: \div floors
BitSum(F(_)) == F(1) + 2*F(2) + 4*F(3) + 8*F(4) + 16*F(5) + 32*F(6) + 64*F(7) + 128*F(8)
\* all operands fit in eight bits; ng is the sign of the result
BitOp(f, x, y) ==
  LET b(u, v) == IF f = "BitwiseAnd" THEN u * v ELSE IF f = "BitwiseOr" THEN Max2(u, v) ELSE (u + v) % 2
      F(k) == b(BitOf(x, k), BitOf(y, k))
      ng == b(B(x < 0), B(y < 0))
  IN BitSum(F) - 256 * ng
ApMk(sh, F(_), ty) == [ty |-> ty, sh |-> sh, v |-> [k \in 1..Prod(sh) |-> F(Unflat(sh, k - 1))], ap |-> 1]
Range1(n) == [i \in 1..n |-> i]
Cat(ss) == LET RECURSIVE C(_) C(n) == IF n = 0 THEN <<>> ELSE C(n - 1) \o ss[n] IN C(Len(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NormAx(a, r) == IF a < 0 THEN a + r ELSE a
NormAxes(as, r) == [i \in 1..Len(as) |-> NormAx(as[i], r)]
Ax(e, t) == NormAx(e.axis, Len(t.sh)) + 1                                \* one-based
MulV(ty, x, y) == Bin("mul", ty, x, y)
Scalar(ty, x) == [ty |-> ty, sh |-> <<>>, v |-> <<x>>]

\* ------------------------------------------------------------ element-wise
U1(e, ty, x) ==
  CASE e.op \in {"Identity", "Dropout"} -> x
    [] e.op = "Abs" -> Un("abs", ty, x)
    [] e.op = "Neg" -> Un("neg", ty, x)
    [] e.op = "Relu" -> Un("relu", ty, x)
    [] e.op = "Floor" -> IF Abs(x) > 2000000000 THEN x ELSE 4 * (x \div 4)
    [] e.op = "Ceil" -> IF Abs(x) > 2000000000 THEN x ELSE -(4 * ((-x) \div 4))
    [] e.op = "Round" -> IF Abs(x) > 2000000000 THEN x ELSE 4 * RoundEven4(x)
    [] e.op = "Sign" -> IF x = NAN THEN NAN ELSE One(ty) * (IF x = NINF THEN -1 ELSE Sgn(x))
    [] e.op = "Not" -> 1 - x
    [] e.op = "BitwiseNot" -> IF ty \in {"u8", "u16"} THEN MaxI(ty) - x ELSE -x - 1
    [] e.op = "IsNaN" -> B(x = NAN)
    [] e.op = "IsInf" -> B((x = INF /\ e.detect_positive = 1) \/ (x = NINF /\ e.detect_negative = 1))
    [] e.op = "LeakyRelu" -> IF x < 0 THEN (x * e.alpha) \div 4 ELSE x
    [] e.op = "ThresholdedRelu" -> IF x > e.alpha THEN x ELSE 0
    [] e.op = "HardSigmoid" -> Max2(0, Min2(4, (x * e.alpha) \div 4 + e.beta))
    [] e.op = "Shrink" -> IF x < -e.lambd THEN x + e.bias ELSE IF x > e.lambd THEN x - e.bias ELSE 0
    [] e.op = "Binarizer" -> IF x > e.threshold THEN One(ty) ELSE 0
Unary == {"Identity", "Dropout", "Abs", "Neg", "Relu", "Floor", "Ceil", "Round", "Sign", "Not", "BitwiseNot", "IsNaN",
          "IsInf", "LeakyRelu", "ThresholdedRelu", "HardSigmoid", "Shrink", "Binarizer"}
Predicate == {"IsNaN", "IsInf", "Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual", "And", "Or", "Xor"}
PyMod(x, y) == x - y * FDiv(x, y)
U2(e, ty, x, y) ==
  CASE e.op = "Add" -> x + y
    [] e.op = "Sub" -> x - y
    [] e.op = "Mul" -> MulV(ty, x, y)
    [] e.op = "Div" -> IF IsF(ty) THEN (4 * x) \div y ELSE TDiv(x, y)
    [] e.op = "Mod" -> IF e.fmod = 1 THEN x - y * TDiv(x, y) ELSE PyMod(x, y)
    [] e.op = "Pow" -> IF IsF(ty) THEN (IF y >= 0 THEN 4 * IPow(x \div 4, y \div 4) ELSE 4 * IPow(x \div 4, -y \div 4)) ELSE IPow(x, y)
    [] e.op = "PRelu" -> IF x < 0 THEN MulV(ty, x, y) ELSE x
    [] e.op \in {"BitwiseAnd", "BitwiseOr", "BitwiseXor"} -> BitOp(e.op, x, y)
    [] e.op = "BitShift" -> IF e.direction = "LEFT" THEN x * Bits[y + 1] ELSE x \div Bits[y + 1]
    [] e.op = "Equal" -> B(Eq(x, y))
    [] e.op = "Less" -> B(Lt(x, y))
    [] e.op = "Greater" -> B(Lt(y, x))
    [] e.op = "LessOrEqual" -> B(Lt(x, y) \/ Eq(x, y))
    [] e.op = "GreaterOrEqual" -> B(Lt(y, x) \/ Eq(x, y))
    [] e.op = "And" -> x * y
    [] e.op = "Or" -> Max2(x, y)
    [] e.op = "Xor" -> B(x # y)
Binary == {"Add", "Sub", "Mul", "Div", "Mod", "Pow", "PRelu", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitShift",
           "Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual", "And", "Or", "Xor"}
VarArg == {"Max", "Min", "Sum", "Mean"}
Tabled == DOMAIN FnTab

\* ------------------------------------------------------------ tensors known approximately
IsAp(t) == "ap" \in DOMAIN t
VAST == 100000000                                                \* a bound that says nothing
Lim(x) == IF x > VAST THEN VAST ELSE x
MaxOf(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN 0 ELSE Max2(M(k - 1), s[k]) IN M(Len(s))
MinOf(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN VAST ELSE Min2(M(k - 1), s[k]) IN M(Len(s))
MaxAbs(t) == MaxOf([k \in DOMAIN t.v |-> Abs(t.v[k])])
MinAbs(t) == MinOf([k \in DOMAIN t.v |-> Abs(t.v[k])])
Er(t) == IF "er" \in DOMAIN t THEN t.er ELSE 3 + MaxAbs(t) \div 300
AsAp(t, er) == [ty |-> t.ty, sh |-> t.sh, v |-> t.v, ap |-> 1, er |-> Lim(er)]
ToAp(t) == IF IsAp(t) THEN AsAp(t, Er(t)) ELSE AsAp([t EXCEPT !.v = [k \in DOMAIN t.v |-> 250 * t.v[k]]], 0)
\* only the rounding to thousandths and that of floating point
Rounded(t) == AsAp(t, 1 + MaxAbs(t) \div 10000)
Times(x, y) == IF x > 10000 \/ y > 10000 THEN VAST ELSE x * y
\* a * b / 1000 and a * 1000 / b within 32 bits
MilMul(a, b) == IF Abs(a) < 40000 /\ Abs(b) < 40000 THEN RDiv(a * b, 1000)
                ELSE IF Abs(a) < Abs(b) THEN (b \div 1000) * a + RDiv((b % 1000) * a, 1000)
                ELSE (a \div 1000) * b + RDiv((a % 1000) * b, 1000)
MilDiv(a, b) == IF b = 0 THEN 0 ELSE IF Abs(a) < 1000000 THEN RDiv(1000 * a, b) ELSE IF Abs(b) < 10 THEN 0 ELSE RDiv(100 * a, b \div 10)
ApBin(op, a, b) ==
  LET F(idx) == LET x == BAt(a, idx) y == BAt(b, idx) IN
                CASE op = "Add" -> x + y [] op = "Sub" -> x - y [] op = "Mul" -> MilMul(x, y) [] op = "DivF" -> MilDiv(x, y)
                  [] op = "Max" -> Max2(x, y) [] op = "Min" -> Min2(x, y)
      t == Mk(a.ty, BShape(a.sh, b.sh), F)
      ea == Er(a) eb == Er(b) low == MinAbs(b) - eb
  IN AsAp(t, CASE op \in {"Add", "Sub"} -> ea + eb
               [] op = "Mul" -> 2 + Times(CeilDiv(MaxAbs(a), 1000), eb) + Times(CeilDiv(MaxAbs(b), 1000), ea) + Times(CeilDiv(ea, 1000), eb)
               [] op = "DivF" -> IF low <= 0 \/ MaxAbs(a) >= 1000000 \/ ea > 100000 \/ eb > 100000 THEN VAST
                                ELSE 2 + CeilDiv(1000 * ea, low) + CeilDiv(Times(MaxAbs(t) \div 10 + 1, eb) * 10, low)
               [] OTHER -> Max2(ea, eb))
ApMoves == {"Identity", "Dropout", "Transpose", "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Expand", "Tile", "Split", "Slice", "Pad",
            "Gather", "GatherElements", "Trilu", "ReverseSequence", "DepthToSpace", "SpaceToDepth", "Abs", "Neg", "Relu",
            "ReduceMax", "ReduceMin", "MaxPool", "GlobalMaxPool", "Compress"}
ApOps == ApMoves \cup {"Add", "Sub", "Mul", "DivF", "Max", "Min", "Sum", "Concat", "Where", "Sqrt", "Reciprocal", "ReduceSum", "ReduceMean", "Clip",
                       "MatMul"}

\* ------------------------------------------------------------ reductions
Ident(f, ty) == CASE f = "add" -> 0 [] f = "mul" -> One(ty)
ReduceOf(op, t, axes0, keep, noop) ==
  LET r == Len(t.sh)
      axes == IF axes0 = <<>> /\ noop = 0 THEN [i \in 1..r |-> i - 1] ELSE NormAxes(axes0, r)
      Sq(x) == MulV(t.ty, x, x)   Ab(x) == Abs(x)
      n == Prod([i \in 1..Len(axes) |-> t.sh[axes[i] + 1]])
      Ap(u, G(_)) == [ty |-> u.ty, sh |-> u.sh, v |-> [k \in DOMAIN u.v |-> G(u.v[k])], ap |-> 1]
      S(u) == Reduce(u, axes, keep, "add")
      Mean(x) == IF IsF(t.ty) THEN RDiv(250 * x, n) ELSE 1000 * TDiv(x, n)
      Root(x) == 5 * ISqrt(x * 10000)                    \* x = 4v; 1000 * sqrt(v) = 5 * sqrt(4v * 10^4)
      Ln(x) == FnTab["Log"].t[x]
      ExpV(u) == [ty |-> u.ty, sh |-> u.sh, v |-> [k \in DOMAIN u.v |-> ExpM[1 - u.v[k]]]]
  IN CASE op = "ReduceSum" -> S(t)
       [] op = "ReduceProd" -> Reduce(t, axes, keep, "mul")
       [] op = "ReduceMax" -> Reduce(t, axes, keep, "max")
       [] op = "ReduceMin" -> Reduce(t, axes, keep, "min")
       [] op = "ReduceL1" -> S(Map(t, t.ty, Ab))
       [] op = "ReduceSumSquare" -> S(Map(t, t.ty, Sq))
       [] op = "ReduceMean" -> IF IsF(t.ty) THEN Rounded(Ap(S(t), Mean)) ELSE Map(S(t), t.ty, LAMBDA x : TDiv(x, n))
       [] op = "ReduceL2" -> Ap(S(Map(t, t.ty, Sq)), Root)
       [] op = "ReduceLogSum" -> Ap(S(t), Ln)
Reductions == {"ReduceSum", "ReduceProd", "ReduceMax", "ReduceMin", "ReduceL1", "ReduceSumSquare", "ReduceMean",
               "ReduceL2", "ReduceLogSum"}
\* the index along axis a (one-based) chosen among the elements of the line through idx
Line(t, a, idx) == [k \in 1..t.sh[a] |-> At(t, [idx EXCEPT ![a] = k - 1])]
ArgOf(op, t, a, keep, last) ==
  LET n == t.sh[a]
      better(x, y) == IF op = "ArgMax" THEN Lt(y, x) ELSE Lt(x, y)
      pick(s) == LET best == {k \in 1..n : \A j \in 1..n : ~better(s[j], s[k])} IN
                 IF last = 1 THEN CHOOSE k \in best : \A j \in best : j <= k
                 ELSE CHOOSE k \in best : \A j \in best : k <= j
      ksh == [t.sh EXCEPT ![a] = 1]
      F(idx) == pick(Line(t, a, idx)) - 1
      R == Mk("i64", ksh, F)
  IN IF keep = 1 THEN R ELSE [R EXCEPT !.sh = Front(t.sh, a - 1) \o Drop(t.sh, a)]
\* positions of the line in the order of TopK: best first, ties by position
Order(s, largest) ==
  LET n == Len(s)
      before(j, k) == IF s[j] = s[k] THEN j < k ELSE IF largest = 1 THEN Lt(s[k], s[j]) ELSE Lt(s[j], s[k])
      rank(k) == Cardinality({j \in 1..n : before(j, k)}) + 1
  IN [p \in 1..n |-> CHOOSE k \in 1..n : rank(k) = p]
TopK(t, a, kk, largest) ==
  LET osh == [t.sh EXCEPT ![a] = kk]
      V(idx) == LET s == Line(t, a, idx) IN s[Order(s, largest)[idx[a] + 1]]
      I(idx) == Order(Line(t, a, idx), largest)[idx[a] + 1] - 1
  IN <<Mk(t.ty, osh, V), Mk("i64", osh, I)>>
CumSum(t, a, excl, rev) ==
  LET F(idx) == LET s == Line(t, a, idx) u == IF rev = 1 THEN Rev(s) ELSE s
                    p == IF rev = 1 THEN Len(s) - idx[a] ELSE idx[a] + 1
                IN Sum(u, IF excl = 1 THEN p - 1 ELSE p)
  IN Mk(t.ty, t.sh, F)
Hardmax(t, a) ==
  LET m == ArgOf("ArgMax", t, a, 1, 0)
      F(idx) == IF At(m, [idx EXCEPT ![a] = 0]) = idx[a] THEN One(t.ty) ELSE 0
  IN Mk(t.ty, t.sh, F)
\* as if the axes from a on were one
Softmax(t, a) ==
  LET F(idx) == LET s == Line(t, a, idx)
                    m == CHOOSE x \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= x
                    ex(k) == ExpM[m - s[k] + 1] \div 10
                IN (1000 * ex(idx[a] + 1)) \div Sum([k \in 1..Len(s) |-> ex(k)], Len(s))
  IN ApMk(t.sh, F, t.ty)

\* ------------------------------------------------------------ moving data
Transpose(t, perm) ==
  LET r == Len(t.sh) F(idx) == At(t, [j \in 1..r |-> idx[CHOOSE i \in 1..r : perm[i] + 1 = j]])
  IN Mk(t.ty, [i \in 1..r |-> t.sh[perm[i] + 1]], F)
ReshapeTo(t, s, allowzero) ==
  LET d(i) == IF s[i] = 0 /\ allowzero = 0 THEN t.sh[i] ELSE s[i]
      known == Prod([i \in 1..Len(s) |-> IF s[i] = -1 THEN 1 ELSE d(i)])
  IN [t EXCEPT !.sh = [i \in 1..Len(s) |-> IF s[i] = -1 THEN Prod(t.sh) \div known ELSE d(i)]]
SqueezeAxes(t, axes0) ==
  LET r == Len(t.sh) axes == NormAxes(axes0, r)
      out(i) == IF axes0 = <<>> THEN t.sh[i] = 1 ELSE In(axes, i - 1)
      keep == SelectSeq(Range1(r), LAMBDA i : ~out(i))
  IN [t EXCEPT !.sh = [k \in 1..Len(keep) |-> t.sh[keep[k]]]]
UnsqueezeAxes(t, axes0) ==
  LET r == Len(t.sh) + Len(axes0) axes == NormAxes(axes0, r)
      rest(i) == i - Cardinality({j \in 1..i : In(axes, j - 1)})
  IN [t EXCEPT !.sh = [i \in 1..r |-> IF In(axes, i - 1) THEN 1 ELSE t.sh[rest(i)]]]
ExpandTo(t, s) == LET F(idx) == BAt(t, idx) IN Mk(t.ty, BShape(t.sh, s), F)
Tile(t, reps) == LET F(idx) == At(t, [i \in 1..Len(t.sh) |-> idx[i] % t.sh[i]])
                 IN Mk(t.ty, [i \in 1..Len(t.sh) |-> t.sh[i] * reps[i]], F)
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
SliceOf(t, starts, ends, axes, steps) ==
  LET r == Len(t.sh) n == Len(starts) ax == NormAxes(axes, r)
      of(i) == CHOOSE k \in 1..n : ax[k] = i - 1
      step(i) == IF In(ax, i - 1) THEN steps[of(i)] ELSE 1
      cut(x, i, lo, hi) == Clamp(IF x < 0 THEN x + t.sh[i] ELSE x, lo, hi)
      from(i) == IF ~In(ax, i - 1) THEN 0
                 ELSE IF step(i) > 0 THEN cut(starts[of(i)], i, 0, t.sh[i]) ELSE cut(starts[of(i)], i, 0, t.sh[i] - 1)
      upto(i) == IF ~In(ax, i - 1) THEN t.sh[i]
                 ELSE IF step(i) > 0 THEN cut(ends[of(i)], i, 0, t.sh[i]) ELSE cut(ends[of(i)], i, -1, t.sh[i] - 1)
      len(i) == Max2(0, IF step(i) > 0 THEN CeilDiv(upto(i) - from(i), step(i)) ELSE CeilDiv(from(i) - upto(i), -step(i)))
      F(idx) == At(t, [i \in 1..r |-> from(i) + idx[i] * step(i)])
  IN Mk(t.ty, [i \in 1..r |-> len(i)], F)
PadMode(t, lo, hi, mode, val) ==
  LET r == Len(t.sh)
      mirror(j, n) == IF n = 1 THEN 0 ELSE LET p == 2 * (n - 1) m == j % p IN IF m < n THEN m ELSE p - m
      src(i, j) == CASE mode = "edge" -> Clamp(j, 0, t.sh[i] - 1) [] mode = "reflect" -> mirror(j, t.sh[i])
                     [] mode = "wrap" -> j % t.sh[i] [] OTHER -> j
      F(idx) == IF mode = "constant" /\ \E i \in 1..r : idx[i] < lo[i] \/ idx[i] >= lo[i] + t.sh[i] THEN val
                ELSE At(t, [i \in 1..r |-> src(i, idx[i] - lo[i])])
  IN Mk(t.ty, [i \in 1..r |-> t.sh[i] + lo[i] + hi[i]], F)
GatherEl(t, ind, a) ==
  LET F(idx) == At(t, [idx EXCEPT ![a] = Wrap(At(ind, idx), t.sh[a])]) IN Mk(t.ty, ind.sh, F)
GatherNd(t, ind, b) ==
  LET q == Len(ind.sh) n == ind.sh[q]
      outer == SubSeq(ind.sh, b + 1, q - 1)
      F(idx) == LET pre == Front(idx, b) o == SubSeq(idx, 1, q - 1)
                    tup == [i \in 1..n |-> Wrap(At(ind, o \o <<i - 1>>), t.sh[b + i])]
                IN At(t, pre \o tup \o Drop(idx, q - 1))
  IN Mk(t.ty, Front(ind.sh, q - 1) \o Drop(t.sh, b + n), F)
Red1(red, ty, x, y) == CASE red = "none" -> y [] red = "add" -> x + y [] red = "mul" -> MulV(ty, x, y)
                         [] red = "max" -> Bin("max", ty, x, y) [] red = "min" -> Bin("min", ty, x, y)
RECURSIVE RedAll(_, _, _, _, _)
RedAll(red, ty, x, s, n) == IF n = 0 THEN x ELSE Red1(red, ty, RedAll(red, ty, x, s, n - 1), s[n])
ScatterEl(t, ind, upd, a, red) ==
  LET n == Prod(ind.sh)
      tgt(k) == LET u == Unflat(ind.sh, k - 1) IN [u EXCEPT ![a] = Wrap(ind.v[k], t.sh[a])]
      F(idx) == LET ks == SelectSeq(Range1(n), LAMBDA k : tgt(k) = idx)
                IN RedAll(red, t.ty, At(t, idx), [j \in 1..Len(ks) |-> upd.v[ks[j]]], Len(ks))
  IN Mk(t.ty, t.sh, F)
OneHot(ind, depth, off, on, axis, ty) ==
  LET r == Len(ind.sh) + 1 a == NormAx(axis, r) + 1
      F(idx) == LET x == At(ind, Front(idx, a - 1) \o Drop(idx, a))
                IN IF Wrap(x, depth) = idx[a] THEN on ELSE off
  IN Mk(ty, Front(ind.sh, a - 1) \o <<depth>> \o Drop(ind.sh, a - 1), F)
Trilu(t, k, upper) ==
  LET r == Len(t.sh) F(idx) == LET i == idx[r - 1] j == idx[r] IN
        IF (IF upper = 1 THEN j >= i + k ELSE j <= i + k) THEN At(t, idx) ELSE 0
  IN Mk(t.ty, t.sh, F)
ReverseSeq(t, lens, ta, ba) ==
  LET F(idx) == LET n == lens.v[idx[ba] + 1] i == idx[ta] IN
                At(t, [idx EXCEPT ![ta] = IF i < n THEN n - 1 - i ELSE i])
  IN Mk(t.ty, t.sh, F)
Compress(t, cond, axis) ==       \* axis 0: of the flattened tensor
  LET on == SelectSeq(Range1(Len(cond.v)), LAMBDA k : cond.v[k] # 0)
      F1(idx) == t.v[on[idx[1] + 1]]
      F(idx) == At(t, [idx EXCEPT ![axis] = on[idx[axis] + 1] - 1])
  IN IF axis = 0 THEN Mk(t.ty, <<Len(on)>>, F1) ELSE Mk(t.ty, [t.sh EXCEPT ![axis] = Len(on)], F)
DepthToSpace(t, b, mode) ==
  LET c == t.sh[2] \div (b * b)
      F(idx) == LET h2 == idx[3] \div b w2 == idx[4] \div b dy == idx[3] % b dx == idx[4] % b
                    ch == IF mode = "DCR" THEN (dy * b + dx) * c + idx[2] ELSE idx[2] * b * b + dy * b + dx
                IN At(t, <<idx[1], ch, h2, w2>>)
  IN Mk(t.ty, <<t.sh[1], c, t.sh[3] * b, t.sh[4] * b>>, F)
SpaceToDepth(t, b) ==
  LET c == t.sh[2]
      F(idx) == LET q == idx[2] \div c dy == q \div b dx == q % b
                IN At(t, <<idx[1], idx[2] % c, idx[3] * b + dy, idx[4] * b + dx>>)
  IN Mk(t.ty, <<t.sh[1], c * b * b, t.sh[3] \div b, t.sh[4] \div b>>, F)
EyeLike(t, k, ty) == LET F(idx) == IF idx[2] = idx[1] + k THEN One(ty) ELSE 0 IN Mk(ty, t.sh, F)
\* values, first positions, inverse, counts; of the flattened tensor
Unique(t, sorted) ==
  LET n == Len(t.v)
      first == SelectSeq(Range1(n), LAMBDA k : \A j \in 1..(k - 1) : t.v[j] # t.v[k])
      m == Len(first)
      at(p) == IF sorted = 0 THEN first[p]
               ELSE CHOOSE k \in {first[i] : i \in 1..m} : Cardinality({i \in 1..m : Lt(t.v[first[i]], t.v[k])}) = p - 1
      inv(k) == CHOOSE p \in 1..m : t.v[at(p)] = t.v[k]
      V(i) == t.v[at(i[1] + 1)]  I(i) == at(i[1] + 1) - 1  J(i) == inv(i[1] + 1) - 1
      C(i) == Cardinality({k \in 1..n : t.v[k] = t.v[at(i[1] + 1)]})
  IN <<Mk(t.ty, <<m>>, V), Mk("i64", <<m>>, I), Mk("i64", <<n>>, J), Mk("i64", <<m>>, C)>>
\* each input has one label per dimension; the labels of the result are out
Einsum(ts, labels, out) ==
  LET n == Len(ts)
      all == LET RECURSIVE C(_) C(k) == IF k = 0 THEN {} ELSE C(k - 1) \cup {labels[k][i] : i \in 1..Len(labels[k])} IN C(n)
      size(l) == LET k == CHOOSE k \in 1..n : In(labels[k], l)
                     i == CHOOSE i \in 1..Len(labels[k]) : labels[k][i] = l IN ts[k].sh[i]
      summed == SelectSeq(Range1(26), LAMBDA l : l \in all /\ ~In(out, l))
      ssh == [i \in 1..Len(summed) |-> size(summed[i])]
      val(l, idx, q) == IF In(out, l) THEN idx[CHOOSE i \in 1..Len(out) : out[i] = l]
                        ELSE q[CHOOSE i \in 1..Len(summed) : summed[i] = l]
      term(idx, q) == LET RECURSIVE P(_)
                          P(k) == LET x == At(ts[k], [i \in 1..Len(labels[k]) |-> val(labels[k][i], idx, q)]) IN
                                  IF k = 1 THEN x ELSE MulV(ts[1].ty, P(k - 1), x)
                      IN P(n)
      F(idx) == Sum([k \in 1..Prod(ssh) |-> term(idx, Unflat(ssh, k - 1))], Prod(ssh))
  IN Mk(ts[1].ty, [i \in 1..Len(out) |-> size(out[i])], F)

\* ------------------------------------------------------------ windows
\* padding before and after a spatial dimension of size n (i one-based)
PadsOf(e, i, n, k, rank) ==
  LET s == e.strides[i] d == e.dilations[i] out == CeilDiv(n, s)
      total == Max2(0, (out - 1) * s + (k - 1) * d + 1 - n)
  IN CASE e.auto_pad = "NOTSET" -> <<e.pads[i], e.pads[rank + i]>>
       [] e.auto_pad = "VALID" -> <<0, 0>>
       [] e.auto_pad = "SAME_UPPER" -> <<total \div 2, total - total \div 2>>
       [] e.auto_pad = "SAME_LOWER" -> <<total - total \div 2, total \div 2>>
WinOut(e, i, n, k, rank, ceilmode) ==
  LET p == PadsOf(e, i, n, k, rank) s == e.strides[i]
      span == n + p[1] + p[2] - ((k - 1) * e.dilations[i] + 1)
      m == IF ceilmode = 1 THEN CeilDiv(span, s) + 1 ELSE span \div s + 1
  IN IF ceilmode = 1 /\ (m - 1) * s >= n + p[1] THEN m - 1 ELSE m
Conv(e, x, w, bias) ==
  LET r == Len(x.sh) - 2 cg == w.sh[2] mg == w.sh[1] \div e.group ks == Drop(w.sh, 2)
      pb == [i \in 1..r |-> PadsOf(e, i, x.sh[i + 2], ks[i], r)[1]]
      tsh == <<cg>> \o ks
      F(idx) ==
        LET m == idx[2] g == m \div mg
            term(u) == LET pos == [i \in 1..r |-> idx[i + 2] * e.strides[i] - pb[i] + u[i + 1] * e.dilations[i]] IN
                       IF \A i \in 1..r : pos[i] >= 0 /\ pos[i] < x.sh[i + 2]
                       THEN MulV(x.ty, At(x, <<idx[1], g * cg + u[1]>> \o pos), At(w, <<m>> \o u)) ELSE 0
        IN Sum([k \in 1..Prod(tsh) |-> term(Unflat(tsh, k - 1))], Prod(tsh)) + (IF bias = <<>> THEN 0 ELSE bias[m + 1])
  IN Mk(x.ty, <<x.sh[1], w.sh[1]>> \o [i \in 1..r |-> WinOut(e, i, x.sh[i + 2], ks[i], r, 0)], F)
ConvTranspose(e, x, w, bias) ==
  LET r == Len(x.sh) - 2 mg == w.sh[2] cg == x.sh[2] \div e.group ks == Drop(w.sh, 2)
      full(i) == e.strides[i] * (x.sh[i + 2] - 1) + e.output_padding[i] + (ks[i] - 1) * e.dilations[i] + 1
      same == e.auto_pad \in {"SAME_UPPER", "SAME_LOWER"}
      given == e.output_shape # <<>>
      want(i) == IF given THEN e.output_shape[i] ELSE x.sh[i + 2] * e.strides[i]
      tot(i) == Max2(0, full(i) - want(i))
      pb == [i \in 1..r |-> IF given \/ same THEN (IF e.auto_pad = "SAME_UPPER" THEN tot(i) \div 2 ELSE tot(i) - tot(i) \div 2)
                      ELSE IF e.auto_pad = "VALID" THEN 0 ELSE e.pads[i]]
      out(i) == IF given \/ same THEN want(i) ELSE IF e.auto_pad = "VALID" THEN full(i) ELSE full(i) - e.pads[i] - e.pads[r + i]
      tsh == <<cg>> \o ks
      F(idx) ==
        LET m == idx[2] g == m \div mg
            term(u) == LET q == [i \in 1..r |-> idx[i + 2] + pb[i] - u[i + 1] * e.dilations[i]] IN
                       IF \A i \in 1..r : q[i] >= 0 /\ q[i] % e.strides[i] = 0 /\ q[i] \div e.strides[i] < x.sh[i + 2]
                       THEN MulV(x.ty, At(x, <<idx[1], g * cg + u[1]>> \o [i \in 1..r |-> q[i] \div e.strides[i]]),
                                 At(w, <<g * cg + u[1], m % mg>> \o Drop(u, 1))) ELSE 0
        IN Sum([k \in 1..Prod(tsh) |-> term(Unflat(tsh, k - 1))], Prod(tsh)) + (IF bias = <<>> THEN 0 ELSE bias[m + 1])
  IN Mk(x.ty, <<x.sh[1], mg * e.group>> \o [i \in 1..r |-> out(i)], F)
Pool(e, x) ==
  LET r == Len(x.sh) - 2 ks == e.kernel_shape
      pads == [i \in 1..r |-> PadsOf(e, i, x.sh[i + 2], ks[i], r)]
      osh == Front(x.sh, 2) \o [i \in 1..r |-> WinOut(e, i, x.sh[i + 2], ks[i], r, e.ceil_mode)]
      posn(idx, u) == [i \in 1..r |-> idx[i + 2] * e.strides[i] - pads[i][1] + u[i] * e.dilations[i]]
      inside(p) == \A i \in 1..r : p[i] >= 0 /\ p[i] < x.sh[i + 2]
      inpad(p) == \A i \in 1..r : p[i] >= -pads[i][1] /\ p[i] < x.sh[i + 2] + pads[i][2]
      cells(idx) == [k \in 1..Prod(ks) |-> posn(idx, Unflat(ks, k - 1))]
      vals(idx) == LET c == cells(idx) q == SelectSeq(c, inside) IN [k \in 1..Len(q) |-> At(x, Front(idx, 2) \o q[k])]
      M(idx) == LET s == vals(idx) IN Fold("max", x.ty, s, Len(s))
      A(idx) == LET s == vals(idx)
                    n == IF e.count_include_pad = 1 THEN Len(SelectSeq(cells(idx), inpad)) ELSE Len(s)
                IN RDiv(250 * Sum(s, Len(s)), n)
  IN IF e.op = "MaxPool" THEN Mk(x.ty, osh, M) ELSE ApMk(osh, A, x.ty)

\* ------------------------------------------------------------ linear algebra
Gemm(e, a, b, c) ==
  LET A == IF e.transA = 1 THEN Transpose(a, <<1, 0>>) ELSE a
      C == IF e.transB = 1 THEN Transpose(b, <<1, 0>>) ELSE b
      p == MatMul(A, C)
      F(idx) == (IF IsF(a.ty) THEN (At(p, idx) * e.alpha) \div 4 ELSE At(p, idx))
                + (IF c = <<>> THEN 0 ELSE IF IsF(a.ty) THEN (BAt(c[1], idx) * e.beta) \div 4 ELSE BAt(c[1], idx))
  IN Mk(a.ty, p.sh, F)
MatMulInt(a, b, za, zb) ==
  LET zaAt(idx) == IF za = <<>> THEN 0 ELSE IF Len(za[1].v) = 1 THEN za[1].v[1] ELSE za[1].v[idx[Len(idx) - 1] + 1]
      zbAt(idx) == IF zb = <<>> THEN 0 ELSE IF Len(zb[1].v) = 1 THEN zb[1].v[1] ELSE zb[1].v[idx[Len(idx)] + 1]
      FA(idx) == At(a, idx) - zaAt(idx)   FB(idx) == At(b, idx) - zbAt(idx)
  IN MatMul(Mk("i32", a.sh, FA), Mk("i32", b.sh, FB))
\* 1000 * x / sqrt(d) for integers
OverRoot(x, d) == IF d = 0 THEN 0
                  ELSE IF d <= 2000 /\ Abs(x) <= 2000 THEN TDiv(x * 1000000, ISqrt(d * 1000000))
                  ELSE IF d <= 200000 /\ Abs(x) <= 20000 THEN TDiv(x * 100000, ISqrt(d * 10000))
                  ELSE TDiv(x * 1000, ISqrt(d))
\* normalised values of the group of n elements s (codes): 1000 * (x - mean) / deviation
Normalized(s, n, x) == LET t == Sum(s, n) q == Sum([k \in 1..n |-> s[k] * s[k]], n)
                       IN OverRoot(n * x - t, n * q - t * t)
\* axes from a on (one-based) form the group
LayerNorm(x, a, scale, bias) ==
  LET inner == Drop(x.sh, a - 1) n == Prod(inner)
      F(idx) == LET s == [k \in 1..n |-> At(x, Front(idx, a - 1) \o Unflat(inner, k - 1))]
                    sub == Drop(idx, a - 1)
                IN (Normalized(s, n, At(x, idx)) * BAt(scale, idx)) \div 4
                   + (IF bias = <<>> THEN 0 ELSE 250 * BAt(bias[1], idx))
  IN ApMk(x.sh, F, x.ty)
RMSNorm(x, a, scale) ==
  LET inner == Drop(x.sh, a - 1) n == Prod(inner)
      F(idx) == LET s == [k \in 1..n |-> At(x, Front(idx, a - 1) \o Unflat(inner, k - 1))]
                    q == Sum([k \in 1..n |-> s[k] * s[k]], n)
                \* x / sqrt(q / n) = n x / sqrt(n q)
                IN (OverRoot(n * At(x, idx), n * q) * BAt(scale, idx)) \div 4
  IN ApMk(x.sh, F, x.ty)
InstanceNorm(x, scale, bias, groups) ==
  LET c == x.sh[2] cg == c \div groups inner == <<cg>> \o Drop(x.sh, 2) n == Prod(inner)
      F(idx) == LET g == idx[2] \div cg
                    s == [k \in 1..n |-> LET u == Unflat(inner, k - 1) IN At(x, <<idx[1], g * cg + u[1]>> \o Drop(u, 1))]
                IN (Normalized(s, n, At(x, idx)) * scale.v[idx[2] + 1]) \div 4 + 250 * bias.v[idx[2] + 1]
  IN ApMk(x.sh, F, x.ty)
BatchNorm(x, scale, bias, mean, var) ==
  LET F(idx) == LET c == idx[2] + 1
                    \* (x - m) * s / sqrt(v): codes (x-m)*s/16 over sqrt(var/4)
                IN TDiv(OverRoot((x.v[Flat(x.sh, idx) + 1] - mean.v[c]) * scale.v[c], var.v[c]), 8) + 250 * bias.v[c]
  IN ApMk(x.sh, F, x.ty)
LRN(x, size, alpha4, bias4) ==        \* beta = 1
  LET half == (size - 1) \div 2  up == size \div 2
      F(idx) == LET s == [k \in 1..x.sh[2] |-> IF k - 1 >= idx[2] - half /\ k - 1 <= idx[2] + up THEN At(x, [idx EXCEPT ![2] = k - 1]) ELSE 0]
                    q == Sum([k \in 1..Len(s) |-> s[k] * s[k]], Len(s))         \* 16 * sum of squares
                    \* x/4 / (b/4 + a/4 * q/16 / size) = 16 size x / (16 size b + a q)
                IN TDiv(16000 * size * At(x, idx), 16 * size * bias4 + alpha4 * q)
  IN ApMk(x.sh, F, x.ty)
LpNorm(x, a, p) ==
  LET F(idx) == LET s == Line(x, a, idx) n == Len(s) v == At(x, idx) IN
                IF p = 1 THEN (LET q == Sum([k \in 1..n |-> Abs(s[k])], n) IN IF q = 0 THEN 0 ELSE TDiv(1000 * v, q))
                ELSE OverRoot(v, Sum([k \in 1..n |-> s[k] * s[k]], n))
  IN ApMk(x.sh, F, x.ty)
MeanVar(x, axes) ==
  LET r == Len(x.sh) red(i) == In(axes, i - 1)
      gsh == [i \in 1..r |-> IF red(i) THEN x.sh[i] ELSE 1] n == Prod(gsh)
      F(idx) == LET s == [k \in 1..n |-> LET u == Unflat(gsh, k - 1) IN At(x, [i \in 1..r |-> IF red(i) THEN u[i] ELSE idx[i]])]
                IN Normalized(s, n, At(x, idx))
  IN ApMk(x.sh, F, x.ty)
\* scales are sc/4 and powers of two: the quotients are exact, a tie goes to the even one
Quant(x, sc, zp, ty) == LET F(v) == LET f == v \div sc m == 2 * (v % sc)
                                        n == IF m < sc THEN f ELSE IF m > sc THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
                                    IN Clamp(n + zp, MinI(ty), MaxI(ty)) IN Map(x, ty, F)
Dequant(x, sc, zp) == LET F(v) == (v - zp) * sc IN Map(x, "f32", F)

\* ------------------------------------------------------------ recurrences
Act(a, x) == CASE a = "Relu" -> Max2(0, x) [] a = "HardSigmoid01" -> Clamp(x, 0, 4) [] a = "Id" -> x
Dot(s, t) == Sum([k \in 1..Len(s) |-> (s[k] * t[k]) \div 4], Len(s))
\* operands of one direction: x[t][b], w[gate][unit], r[gate][unit] are vectors
RECURSIVE CellRun(_, _, _, _)
CellStep(c, x, h) ==          \* c: parameters, x[b], h[b] = [h, c] -> the next
  LET H == c.hs
      xw(b, g, u) == Dot(x[b], c.w[(g - 1) * H + u]) + (IF c.wb = <<>> THEN 0 ELSE c.wb[(g - 1) * H + u])
      rb(g, u) == IF c.rb = <<>> THEN 0 ELSE c.rb[(g - 1) * H + u]
      hr(hv, g, u) == Dot(hv, c.r[(g - 1) * H + u]) + rb(g, u)
      pp(k, u, cv) == IF c.p = <<>> THEN 0 ELSE (c.p[(k - 1) * H + u] * cv[u]) \div 4
      M4(a, b) == (a * b) \div 4
      rnn(b) == LET hv == h[b].h IN [h |-> [u \in 1..H |-> Act(c.f, xw(b, 1, u) + hr(hv, 1, u))], c |-> <<>>]
      gru(b) == LET hv == h[b].h
                    z == [u \in 1..H |-> Act(c.f, xw(b, 1, u) + hr(hv, 1, u))]
                    rr == [u \in 1..H |-> Act(c.f, xw(b, 2, u) + hr(hv, 2, u))]
                    rh == [u \in 1..H |-> M4(rr[u], hv[u])]
                    n == [u \in 1..H |-> Act(c.g, xw(b, 3, u) + (IF c.lbr = 1 THEN M4(rr[u], hr(hv, 3, u)) ELSE hr(rh, 3, u)))]
                IN [h |-> [u \in 1..H |-> M4(4 - z[u], n[u]) + M4(z[u], hv[u])], c |-> <<>>]
      lstm(b) == LET hv == h[b].h cv == h[b].c
                     i == [u \in 1..H |-> Act(c.f, xw(b, 1, u) + hr(hv, 1, u) + pp(1, u, cv))]
                     f == [u \in 1..H |-> Act(c.f, xw(b, 3, u) + hr(hv, 3, u) + pp(3, u, cv))]
                     g == [u \in 1..H |-> Act(c.g, xw(b, 4, u) + hr(hv, 4, u))]
                     n == [u \in 1..H |-> M4(f[u], cv[u]) + M4(i[u], g[u])]
                     o == [u \in 1..H |-> Act(c.f, xw(b, 2, u) + hr(hv, 2, u) + pp(2, u, n))]
                 IN [h |-> [u \in 1..H |-> M4(o[u], Act(c.h, n[u]))], c |-> n]
  IN [b \in 1..Len(x) |-> CASE c.kind = "RNN" -> rnn(b) [] c.kind = "GRU" -> gru(b) [] c.kind = "LSTM" -> lstm(b)]
CellRun(c, xs, h0, n) == IF n = 0 THEN <<>> ELSE
  LET before == CellRun(c, xs, h0, n - 1) IN Append(before, CellStep(c, xs[n], IF n = 1 THEN h0 ELSE before[n - 1]))
Recurrent(e, x, w, r, bias, h0, c0, p) ==
  LET T == IF e.layout = 0 THEN x.sh[1] ELSE x.sh[2]
      N == IF e.layout = 0 THEN x.sh[2] ELSE x.sh[1]
      I == x.sh[3] H == e.hidden_size
      D == w.sh[1] G == CASE e.op = "RNN" -> 1 [] e.op = "GRU" -> 3 [] OTHER -> 4
      xat(t, b) == [k \in 1..I |-> At(x, IF e.layout = 0 THEN <<t - 1, b - 1, k - 1>> ELSE <<b - 1, t - 1, k - 1>>)]
      back(d) == e.direction = "reverse" \/ d = 2
      st0(s, d, b) == IF s = <<>> THEN [u \in 1..H |-> 0]
                      ELSE [u \in 1..H |-> At(s[1], IF e.layout = 0 THEN <<d - 1, b - 1, u - 1>> ELSE <<b - 1, d - 1, u - 1>>)]
      par(d) == [kind |-> e.op, hs |-> H, lbr |-> e.linear_before_reset,
                 w |-> [k \in 1..(G * H) |-> [i \in 1..I |-> At(w, <<d - 1, k - 1, i - 1>>)]],
                 r |-> [k \in 1..(G * H) |-> [i \in 1..H |-> At(r, <<d - 1, k - 1, i - 1>>)]],
                 wb |-> IF bias = <<>> THEN <<>> ELSE [k \in 1..(G * H) |-> At(bias[1], <<d - 1, k - 1>>)],
                 rb |-> IF bias = <<>> THEN <<>> ELSE [k \in 1..(G * H) |-> At(bias[1], <<d - 1, G * H + k - 1>>)],
                 p |-> IF p = <<>> THEN <<>> ELSE [k \in 1..(3 * H) |-> At(p[1], <<d - 1, k - 1>>)],
                 f |-> e.acts[d][1], g |-> e.acts[d][2], h |-> e.acts[d][3]]
      run == [d \in 1..D |->
               CellRun(par(d), [t \in 1..T |-> [b \in 1..N |-> xat(IF back(d) THEN T + 1 - t ELSE t, b)]],
                       [b \in 1..N |-> [h |-> st0(h0, d, b), c |-> st0(c0, d, b)]], T)]
      step(t, d) == run[d][IF back(d) THEN T + 1 - t ELSE t]
      Y(idx) == IF e.layout = 0 THEN step(idx[1] + 1, idx[2] + 1)[idx[3] + 1].h[idx[4] + 1]
                ELSE step(idx[2] + 1, idx[3] + 1)[idx[1] + 1].h[idx[4] + 1]
      YH(idx) == IF e.layout = 0 THEN run[idx[1] + 1][T][idx[2] + 1].h[idx[3] + 1] ELSE run[idx[2] + 1][T][idx[1] + 1].h[idx[3] + 1]
      YC(idx) == IF e.layout = 0 THEN run[idx[1] + 1][T][idx[2] + 1].c[idx[3] + 1] ELSE run[idx[2] + 1][T][idx[1] + 1].c[idx[3] + 1]
      hsh == IF e.layout = 0 THEN <<D, N, H>> ELSE <<N, D, H>>
  IN <<Mk(x.ty, IF e.layout = 0 THEN <<T, D, N, H>> ELSE <<N, T, D, H>>, Y), Mk(x.ty, hsh, YH)>>
     \o (IF e.op = "LSTM" THEN <<Mk(x.ty, hsh, YC)>> ELSE <<>>)

\* ------------------------------------------------------------ resampling
\* nearest: the source index for output o, size n -> m; scale sc/4 (a power of two)
Nearest(e, o, n, m, sc) ==
  LET \* the coordinate times 2 * sc (sc > 0): exact
      num == CASE e.ctm = "asymmetric" -> 8 * o
               [] e.ctm = "half_pixel" -> 4 * (2 * o + 1) - sc
               [] e.ctm = "pytorch_half_pixel" -> IF m > 1 THEN 4 * (2 * o + 1) - sc ELSE 0
               [] e.ctm = "align_corners" -> IF m = 1 THEN 0 ELSE 2 * sc * o * (n - 1)
      den == IF e.ctm = "align_corners" /\ m > 1 THEN 2 * sc * (m - 1) ELSE 2 * sc
      q == num \div den
      r == num % den
      i == CASE e.nearest_mode = "floor" -> q
             [] e.nearest_mode = "ceil" -> IF r = 0 THEN q ELSE q + 1
             [] e.nearest_mode = "round_prefer_floor" -> IF 2 * r > den THEN q + 1 ELSE q
             [] e.nearest_mode = "round_prefer_ceil" -> IF 2 * r >= den THEN q + 1 ELSE q
  IN Clamp(i, 0, n - 1)
ResizeNearest(e, t, osh, scs) ==
  LET r == Len(t.sh) F(idx) == At(t, [i \in 1..r |-> IF t.sh[i] = osh[i] /\ scs[i] = 4 THEN idx[i] ELSE Nearest(e, idx[i], t.sh[i], osh[i], scs[i])])
  IN Mk(t.ty, osh, F)

\* ------------------------------------------------------------ a node
ConstAttr(e) == [ty |-> e.ty, sh |-> e.sh, v |-> NormS(e.v)]
RECURSIVE Outs(_, _), Eval(_, _, _), LoopRun(_, _, _, _, _), ScanRun(_, _, _, _)
Eval(env, evs, n) == IF n = 0 THEN env ELSE LET b == Eval(env, evs, n - 1) IN b \o Outs(b, evs[n])
Give(env, ids) == [k \in 1..Len(ids) |-> env[ids[k]]]
\* <<carried values, iterations done, sequence of scanned rows>>
LoopRun(env, e, st, i, max) ==
  IF i >= max \/ st.cond = 0 THEN st
  ELSE LET b == env \o <<Scalar("i64", i), Scalar("i1", st.cond)>> \o st.vals
           r == Give(Eval(b, e.body, Len(e.body)), e.ret)
           nc == Len(st.vals)
       IN LoopRun(env, e, [cond |-> r[1].v[1], vals |-> SubSeq(r, 2, nc + 1), rows |-> Append(st.rows, Drop(r, nc + 1))], i + 1, max)
\* scans over the leading axis of the inputs
ScanRun(env, e, st, i) ==
  LET n == e.num_scan_inputs nc == Len(e.ins) - n
      T == env[e.ins[nc + 1]].sh[1]
      row(k) == LET t == env[e.ins[nc + k]] F(idx) == At(t, <<i>> \o idx) IN Mk(t.ty, Drop(t.sh, 1), F)
  IN IF i >= T THEN st
     ELSE LET r == Give(Eval(env \o st.vals \o [k \in 1..n |-> row(k)], e.body, Len(e.body)), e.ret)
          IN ScanRun(env, e, [vals |-> Front(r, nc), rows |-> Append(st.rows, Drop(r, nc))], i + 1)
Stack(rows, k, ty, sh) == [ty |-> ty, sh |-> <<Len(rows)>> \o sh, v |-> Cat([i \in 1..Len(rows) |-> rows[i][k].v])]

\* a node some of whose operands are approximate
ApOuts(env, e) ==
  LET n == Len(e.ins) op == e.op
      A(i) == env[e.ins[i]] P(i) == ToAp(A(i))
      Bare(t) == [ty |-> t.ty, sh |-> t.sh, v |-> t.v]
      Rest == [env EXCEPT ![e.ins[1]] = Bare(@)]
      Milli(used) == [i \in DOMAIN env |-> IF i \in used THEN Bare(ToAp(env[i])) ELSE env[i]]
      As(r, er) == [k \in 1..Len(r) |-> AsAp(r[k], er)]
      RECURSIVE Acc(_) Acc(k) == IF k = 1 THEN P(1) ELSE ApBin(IF op = "Sum" THEN "Add" ELSE op, Acc(k - 1), P(k))
      m == MinAbs(A(1)) er == Er(A(1))
  IN CASE op \in ApMoves -> As(Outs(Rest, e), er)
       [] op \in {"Add", "Sub", "Mul", "DivF", "Max", "Min", "Sum"} -> <<Acc(n)>>
       [] op = "Concat" -> LET used == {e.ins[k] : k \in 1..n}
                               mx == MaxOf([k \in 1..n |-> Er(P(k))])
                           IN As(Outs(Milli(used), e), mx)
       [] op = "Where" -> LET used == {e.ins[2], e.ins[3]}
                          IN As(Outs(Milli(used), e), Max2(Er(P(2)), Er(P(3))))
       [] op = "Clip" -> LET used == {e.ins[k] : k \in 1..n} \ {0}
                         IN As(Outs(Milli(used), e), er)
       [] op = "Sqrt" -> LET F(x) == IF x <= 0 THEN 0 ELSE IF x < 2000000 THEN ISqrt(1000 * x) ELSE 10 * ISqrt(10 * x)
                         IN <<AsAp(Map(Bare(A(1)), A(1).ty, F), IF m <= er THEN VAST ELSE 12 + CeilDiv(Min2(er, 1000000) * 500, ISqrt(1000 * Min2(m - er, 2000000))))>>
       [] op = "Reciprocal" -> LET F(x) == IF x = 0 THEN 0 ELSE RDiv(1000000, x)
                               IN <<AsAp(Map(Bare(A(1)), A(1).ty, F), IF m <= er \/ m < 50 THEN VAST ELSE 2 + CeilDiv(CeilDiv(1000000, m) * Min2(er, 10000), m - er))>>
       [] op = "ReduceSum" -> LET r == Outs(Rest, e)[1] IN <<AsAp(r, Times(er, Max2(1, Prod(A(1).sh) \div Max2(1, Prod(r.sh)))))>>
       [] op = "ReduceMean" -> LET r == Outs(Rest, [e EXCEPT !.op = "ReduceSum"])[1]
                                   c == Max2(1, Prod(A(1).sh) \div Max2(1, Prod(r.sh))) F(x) == RDiv(x, c)
                               IN <<AsAp(Map(r, r.ty, F), er + 1)>>
       \* the other operand is exact
       [] op = "MatMul" -> LET k == IF IsAp(A(1)) THEN 1 ELSE 2
                               r == Outs([env EXCEPT ![e.ins[k]] = Bare(@)], e)[1]
                               K == IF Len(A(2).sh) = 1 THEN A(2).sh[1] ELSE A(2).sh[Len(A(2).sh) - 1]
                           IN <<AsAp(r, K + Times(Er(A(k)), CeilDiv(MaxAbs(A(3 - k)), 4) * K))>>
Approx(env, e) == IF "ins" \in DOMAIN e THEN \E i \in DOMAIN e.ins : e.ins[i] # 0 /\ (IF e.ins[i] # 0 THEN IsAp(env[e.ins[i]]) ELSE FALSE) ELSE FALSE

Outs(env, e) ==
  IF (IF e.op \in ApOps THEN Approx(env, e) ELSE FALSE) THEN ApOuts(env, e) ELSE
  LET A(i) == env[e.ins[i]]
      Has(i) == i <= Len(e.ins) /\ (IF i <= Len(e.ins) THEN e.ins[i] # 0 ELSE FALSE)
      Opt(i) == IF Has(i) THEN <<A(i)>> ELSE <<>>
      OptV(i) == IF Has(i) THEN A(i).v ELSE <<>>
      n == Len(e.ins)
      op == e.op
  IN
  CASE op = "in" -> <<ConstAttr(e)>>
    [] op \in Unary -> LET F(x) == U1(e, A(1).ty, x) IN <<Map(A(1), IF op \in Predicate THEN "i1" ELSE A(1).ty, F)>>
    [] op = "Reciprocal" -> LET F(idx) == TDiv(4000, At(A(1), idx)) IN <<Rounded(ApMk(A(1).sh, F, A(1).ty))>>
    [] op \in Tabled -> LET tb == FnTab[op] F(idx) == tb.t[At(A(1), idx) - tb.lo + 1] IN <<Rounded(ApMk(A(1).sh, F, A(1).ty))>>
    [] op = "DivF" -> LET F(idx) == RDiv(1000 * BAt(A(1), idx), BAt(A(2), idx)) IN <<Rounded(ApMk(BShape(A(1).sh, A(2).sh), F, A(1).ty))>>
    [] op \in Binary -> LET F(idx) == U2(e, A(1).ty, BAt(A(1), idx), BAt(A(2), idx))
                        IN <<Mk(IF op \in Predicate THEN "i1" ELSE A(1).ty, BShape(A(1).sh, A(2).sh), F)>>
    [] op \in VarArg ->
         LET RECURSIVE S(_) S(k) == IF k = 1 THEN A(1).sh ELSE BShape(S(k - 1), A(k).sh)
             f == CASE op = "Max" -> "max" [] op = "Min" -> "min" [] OTHER -> "add"
             F(idx) == Fold(f, A(1).ty, [k \in 1..n |-> BAt(A(k), idx)], n)
             G(idx) == RDiv(250 * F(idx), n)
         IN <<IF op = "Mean" THEN Rounded(ApMk(S(n), G, A(1).ty)) ELSE Mk(A(1).ty, S(n), F)>>
    [] op = "Clip" -> LET F(x) == LET y == IF Has(2) THEN (IF Lt(x, A(2).v[1]) THEN A(2).v[1] ELSE x) ELSE x
                                  IN IF Has(3) THEN (IF Lt(A(3).v[1], y) THEN A(3).v[1] ELSE y) ELSE y IN <<Map(A(1), A(1).ty, F)>>
    [] op = "Where" -> LET F(idx) == IF BAt(A(1), idx) # 0 THEN BAt(A(2), idx) ELSE BAt(A(3), idx)
                       IN <<Mk(A(2).ty, BShape(A(1).sh, BShape(A(2).sh, A(3).sh)), F)>>
    [] op = "Cast" -> LET F(x) == IF IsF(e.to) THEN CastF(A(1).ty, e.to, x, 0) ELSE CastI(A(1).ty, e.to, x, 0) IN <<Map(A(1), e.to, F)>>
    [] op \in Reductions -> <<ReduceOf(op, A(1), IF Has(2) THEN A(2).v ELSE e.axes, e.keepdims, e.noop_with_empty_axes)>>
    [] op \in {"ArgMax", "ArgMin"} -> <<ArgOf(op, A(1), Ax(e, A(1)), e.keepdims, e.select_last_index)>>
    [] op = "TopK" -> TopK(A(1), Ax(e, A(1)), A(2).v[1], e.largest)
    [] op = "CumSum" -> <<CumSum(A(1), NormAx(A(2).v[1], Len(A(1).sh)) + 1, e.exclusive, e.reverse)>>
    [] op = "Hardmax" -> <<Hardmax(A(1), Ax(e, A(1)))>>
    [] op = "Softmax" -> <<Softmax(A(1), Ax(e, A(1)))>>
    [] op = "Transpose" -> <<Transpose(A(1), e.perm)>>
    [] op = "Reshape" -> <<ReshapeTo(A(1), A(2).v, e.allowzero)>>
    [] op = "Flatten" -> LET a == NormAx(e.axis, Len(A(1).sh)) IN <<[A(1) EXCEPT !.sh = <<Prod(Front(@, a)), Prod(Drop(@, a))>>]>>
    [] op = "Squeeze" -> <<SqueezeAxes(A(1), IF Has(2) THEN A(2).v ELSE e.axes)>>
    [] op = "Unsqueeze" -> <<UnsqueezeAxes(A(1), IF Has(2) THEN A(2).v ELSE e.axes)>>
    [] op = "Expand" -> <<ExpandTo(A(1), A(2).v)>>
    [] op = "Tile" -> <<Tile(A(1), A(2).v)>>
    [] op = "Concat" -> <<Concat([k \in 1..n |-> A(k)], Ax(e, A(1)) - 1)>>
    [] op = "Split" -> LET a == Ax(e, A(1)) d == A(1).sh[a] k == e.num_outputs c == CeilDiv(d, k)
                           sizes == IF Has(2) THEN A(2).v ELSE [i \in 1..k |-> IF i < k THEN c ELSE d - (k - 1) * c]
                       IN Split(A(1), a - 1, sizes)
    [] op = "Slice" -> LET m == Len(A(2).v) IN
                       <<SliceOf(A(1), A(2).v, A(3).v, IF Has(4) THEN A(4).v ELSE [i \in 1..m |-> i - 1],
                                 IF Has(5) THEN A(5).v ELSE [i \in 1..m |-> 1])>>
    [] op = "Pad" -> LET r == Len(A(1).sh) m == Len(A(2).v) \div 2
                         ax == IF Has(4) THEN NormAxes(A(4).v, r) ELSE [i \in 1..r |-> i - 1]
                         at(i, o) == IF In(ax, i - 1) THEN A(2).v[o + (CHOOSE k \in 1..Len(ax) : ax[k] = i - 1)] ELSE 0
                     IN <<PadMode(A(1), [i \in 1..r |-> at(i, 0)], [i \in 1..r |-> at(i, m)], e.mode, IF Has(3) THEN A(3).v[1] ELSE 0)>>
    [] op = "Shape" -> LET r == Len(A(1).sh)
                           s == Clamp(NormAx(e.start, r), 0, r) t == Clamp(NormAx(e.end, r), 0, r)
                           u == IF s < t THEN SubSeq(A(1).sh, s + 1, t) ELSE <<>>
                       IN <<[ty |-> "i64", sh |-> <<Len(u)>>, v |-> u]>>
    [] op = "Size" -> <<Scalar("i64", Prod(A(1).sh))>>
    [] op = "Gather" -> <<Gather(A(1), A(2), Ax(e, A(1)) - 1)>>
    [] op = "GatherElements" -> <<GatherEl(A(1), A(2), Ax(e, A(1)))>>
    [] op = "GatherND" -> <<GatherNd(A(1), A(2), e.batch_dims)>>
    [] op = "ScatterElements" -> <<ScatterEl(A(1), A(2), A(3), Ax(e, A(1)), e.reduction)>>
    [] op = "ScatterND" -> <<Scatter(A(1), A(2), A(3))>>
    [] op = "ConstantOfShape" -> LET F(idx) == e.value IN <<Mk(e.ty, A(1).v, F)>>
    [] op = "Range" -> LET s == A(1).v[1] d == A(3).v[1] m == Max2(0, IF d > 0 THEN CeilDiv(A(2).v[1] - s, d) ELSE CeilDiv(s - A(2).v[1], -d))
                       IN <<[ty |-> A(1).ty, sh |-> <<m>>, v |-> [k \in 1..m |-> s + (k - 1) * d]]>>
    [] op = "EyeLike" -> <<EyeLike(A(1), e.k, e.ty)>>
    [] op = "OneHot" -> <<OneHot(A(1), A(2).v[1], A(3).v[1], A(3).v[2], e.axis, A(3).ty)>>
    [] op = "NonZero" -> <<NonZero(A(1))>>
    [] op = "Compress" -> <<Compress(A(1), A(2), IF e.hasaxis = 1 THEN Ax(e, A(1)) ELSE 0)>>
    [] op = "ReverseSequence" -> <<ReverseSeq(A(1), A(2), e.time_axis + 1, e.batch_axis + 1)>>
    [] op = "Trilu" -> <<Trilu(A(1), IF Has(2) THEN A(2).v[1] ELSE 0, e.upper)>>
    [] op = "Unique" -> Unique(A(1), e.sorted)
    [] op = "DepthToSpace" -> <<DepthToSpace(A(1), e.blocksize, e.mode)>>
    [] op = "SpaceToDepth" -> <<SpaceToDepth(A(1), e.blocksize)>>
    [] op = "Einsum" -> <<Einsum([k \in 1..n |-> A(k)], e.labels, e.out)>>
    [] op = "MatMul" -> <<MatMul(A(1), A(2))>>
    [] op = "Gemm" -> <<Gemm(e, A(1), A(2), Opt(3))>>
    [] op = "MatMulInteger" -> <<MatMulInt(A(1), A(2), Opt(3), Opt(4))>>
    [] op = "Conv" -> <<Conv(e, A(1), A(2), OptV(3))>>
    [] op = "ConvTranspose" -> <<ConvTranspose(e, A(1), A(2), OptV(3))>>
    [] op \in {"MaxPool", "AveragePool"} -> <<Pool(e, A(1))>>
    [] op = "GlobalMaxPool" -> <<ReduceOf("ReduceMax", A(1), [i \in 1..(Len(A(1).sh) - 2) |-> i + 1], 1, 0)>>
    [] op = "GlobalAveragePool" -> <<ReduceOf("ReduceMean", A(1), [i \in 1..(Len(A(1).sh) - 2) |-> i + 1], 1, 0)>>
    [] op = "BatchNormalization" -> <<BatchNorm(A(1), A(2), A(3), A(4), A(5))>>
    [] op = "LayerNormalization" -> <<LayerNorm(A(1), Ax(e, A(1)), A(2), Opt(3))>>
    [] op = "RMSLayerNormalization" -> <<RMSNorm(A(1), Ax(e, A(1)), A(2))>>
    [] op = "InstanceNormalization" -> <<InstanceNorm(A(1), A(2), A(3), A(1).sh[2])>>
    [] op = "GroupNormalization" -> <<InstanceNorm(A(1), A(2), A(3), e.num_groups)>>
    [] op = "LRN" -> <<LRN(A(1), e.size, e.alpha, e.bias)>>
    [] op = "LpNormalization" -> <<LpNorm(A(1), Ax(e, A(1)), e.p)>>
    [] op = "MeanVarianceNormalization" -> <<MeanVar(A(1), NormAxes(e.axes, Len(A(1).sh)))>>
    [] op = "QuantizeLinear" -> <<Quant(A(1), A(2).v[1], IF Has(3) THEN A(3).v[1] ELSE 0, e.ty)>>
    [] op = "DequantizeLinear" -> <<Dequant(A(1), A(2).v[1], IF Has(3) THEN A(3).v[1] ELSE 0)>>
    [] op \in {"RNN", "GRU", "LSTM"} -> Recurrent(e, A(1), A(2), A(3), Opt(4), Opt(6), Opt(7), Opt(8))
    [] op = "ResizeNearest" -> <<ResizeNearest(e, A(1), e.osh, e.scs)>>
    [] op = "If" -> LET body == IF A(1).v[1] # 0 THEN e.body ELSE e.body2
                        ret == IF A(1).v[1] # 0 THEN e.ret ELSE e.ret2
                    IN Give(Eval(env, body, Len(body)), ret)
    [] op = "Loop" -> LET st == LoopRun(env, e, [cond |-> IF Has(2) THEN A(2).v[1] ELSE 1, vals |-> [k \in 1..(n - 2) |-> A(k + 2)], rows |-> <<>>],
                                        0, IF Has(1) THEN A(1).v[1] ELSE 1000)
                      IN st.vals \o [k \in 1..Len(e.scans) |-> Stack(st.rows, k, e.scans[k].ty, e.scans[k].sh)]
    [] op = "Scan" -> LET st == ScanRun(env, e, [vals |-> [k \in 1..(n - e.num_scan_inputs) |-> A(k)], rows |-> <<>>], 0)
                      IN st.vals \o [k \in 1..Len(e.scans) |-> Stack(st.rows, k, e.scans[k].ty, e.scans[k].sh)]
=============================================================================
