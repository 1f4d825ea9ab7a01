--------------------------------- MODULE Tiles ---------------------------------
(* Operations on tensors larger than the accelerator takes.  A tensor of four
   dimensions is cut into a grid of tiles; each tile is loaded, worked on and
   stored back, one after the other through one buffer or several at a time
   with a buffer each.  Whatever the cut, the number of workers and their order,
   the result is that of the operation on the whole.

   First part: the tiling machine itself, explored by TLC.
   Second part: the operations of the runtime over a stand-in accelerator that
   does integer arithmetic; TLC decides every recorded operation.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sticks, Cells, MaxDim, MaxSize, Workers
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok,                          \* the record being judged
          full, tile, pc, buf, at, y         \* the machine
Ceil(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
UpTo(a, b) == Ceil(a, b) * b

(* --------------------------------- the cut ------------------------------- *)
Ax == 1..4                                   \* E4, E3, E2, E1
Unit == <<1, 1, Sticks, Cells>>              \* pages are never cut
\* the size of a tile where r is asked for and the dimension is d; 0 asks for all of it
Cut(d, r, i) == IF r = 0 \/ r = d THEN d ELSE UpTo(r, Unit[i])
Cuts(q, r) == [i \in Ax |-> Cut(q[i], r[i], i)]
Count(q, T) == [i \in Ax |-> Ceil(q[i], T[i])]
From(T, t) == [i \in Ax |-> T[i] * t[i]]
Extent(q, T, t) == [i \in Ax |-> Min2(T[i], q[i] - T[i] * t[i])]
Index(q, p) == ((p[1] * q[2] + p[2]) * q[3] + p[3]) * q[4] + p[4]
Cell(q, x) == <<x \div (q[2] * q[3] * q[4]), (x \div (q[3] * q[4])) % q[2], (x \div q[4]) % q[3], x % q[4]>>
Size(q) == q[1] * q[2] * q[3] * q[4]
Plus(a, b) == [i \in Ax |-> a[i] + b[i]]

(* ------------------------------- the machine ----------------------------- *)
Points(q) == {<<a, b, c, d>> : a \in 0..q[1] - 1, b \in 0..q[2] - 1, c \in 0..q[3] - 1, d \in 0..q[4] - 1}
X(p) == p[1] * 1000 + p[2] * 100 + p[3] * 10 + p[4]
F(v) == 3 * v + 1
Area(t) == {p \in Points(full) : \A i \in Ax : p[i] \div tile[i] = t[i]}
TS == Points(Count(full, tile))
None == <<>>
MInit == /\ full \in [Ax -> 1..MaxDim] /\ \E r \in [Ax -> 0..MaxDim + 1] : tile = Cuts(full, r)
         /\ Size(full) <= MaxSize
         /\ pc = [t \in TS |-> "todo"] /\ at = [w \in 1..Workers |-> None]
         /\ buf = [w \in 1..Workers |-> None] /\ y = [p \in Points(full) |-> -1]
         /\ h = 1 /\ l = 1 /\ ok = TRUE
Load(w, t) == /\ at[w] = None /\ pc[t] = "todo"
              /\ at' = [at EXCEPT ![w] = t] /\ pc' = [pc EXCEPT ![t] = "loaded"]
              /\ buf' = [buf EXCEPT ![w] = [p \in Area(t) |-> X(p)]] /\ UNCHANGED y
Work(w) == /\ at[w] # None /\ pc[at[w]] = "loaded"
           /\ pc' = [pc EXCEPT ![at[w]] = "done"]
           /\ buf' = [buf EXCEPT ![w] = [p \in DOMAIN buf[w] |-> F(buf[w][p])]] /\ UNCHANGED <<at, y>>
Store(w) == /\ at[w] # None /\ pc[at[w]] = "done"
            /\ \A p \in DOMAIN buf[w] : y[p] = -1          \* no cell is stored twice
            /\ y' = [p \in DOMAIN y |-> IF p \in DOMAIN buf[w] THEN buf[w][p] ELSE y[p]]
            /\ pc' = [pc EXCEPT ![at[w]] = "stored"] /\ at' = [at EXCEPT ![w] = None] /\ buf' = [buf EXCEPT ![w] = None]
MNext == (\E w \in 1..Workers : Work(w) \/ Store(w) \/ \E t \in DOMAIN pc : Load(w, t)) /\ UNCHANGED <<h, l, ok, full, tile>>
MSpec == MInit /\ [][MNext]_<<h, l, ok, full, tile, pc, buf, at, y>>
Finished == \A t \in DOMAIN pc : pc[t] = "stored"
MOK == /\ \A t \in TS : Area(t) # {}
                        /\ \A p \in Area(t) : \A i \in Ax : p[i] >= From(tile, t)[i] /\ p[i] < From(tile, t)[i] + Extent(full, tile, t)[i]
                        /\ Cardinality(Area(t)) = Size(Extent(full, tile, t))
       /\ Finished => \A p \in Points(full) : y[p] = F(X(p))
       /\ \A p \in Points(full) : y[p] \in {-1, F(X(p))}
       /\ \A w \in 1..Workers : at[w] # None /\ pc[at[w]] = "done" => \A p \in DOMAIN buf[w] : y[p] = -1
       /\ (~Finished) => ENABLED MNext
       /\ \A x \in 0..Size(full) - 1 : Index(full, Cell(full, x)) = x

(* ------------------------------ the operations --------------------------- *)
Dims(lay, sh) ==
  CASE lay = "1D" -> <<1, 1, 1, sh[1]>>
    [] lay = "2D" -> <<1, 1, sh[1], sh[2]>>
    [] lay = "2DS" -> <<sh[1], 1, 1, sh[2]>>
    [] lay = "3D" -> <<1, sh[1], sh[2], sh[3]>>
    [] lay = "3DS" -> <<sh[1], 1, sh[2], sh[3]>>
    [] lay = "NCHW" -> <<sh[1], sh[3], sh[4], sh[2]>>
    [] OTHER -> sh
\* what the operands hold
V(k, x) == (x * (<<37, 101, 53>>)[k] + (<<5, 11, 7>>)[k]) % 1009
Max2(a, b) == IF a < b THEN b ELSE a
Unary == [exp |-> 1, log |-> 2, gelu |-> 3, sqrt |-> 4, tanh |-> 5, sigmoid |-> 6, relu |-> 7, invsqrt |-> 8]
\* element x of the answer of an elementwise operation
Ew(e, x) ==
  LET a == V(1, x)  b == V(2, x) IN
  CASE e.f = "add" -> a + b [] e.f = "sub" -> a - b + 2000 [] e.f = "mul" -> (a * b) % 4001 [] e.f = "div" -> 2 * a + b
    [] e.f = "max" -> Max2(a, b) [] e.f = "min" -> Min2(a, b)
    [] e.f \in DOMAIN Unary -> 3 * a + Unary[e.f] + (IF e.f \in {"relu", "invsqrt"} THEN e.par ELSE 0)
Sum(n, G(_)) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + G(i - 1) IN S[n]
Softmax(e, y0) == LET q == Dims(e.lay, e.sh) IN
  /\ Len(y0) = Size(q)
  /\ \A r \in 0..(Size(q) \div q[4]) - 1 :
       LET s == Sum(q[4], LAMBDA d : V(1, r * q[4] + d)) IN
       \A d \in 0..q[4] - 1 : y0[r * q[4] + d + 1] = (2 * V(1, r * q[4] + d) + s + e.par) % 30011
Mm(e, y0) ==
  LET S == e.d[1]  M == e.d[2]  K == e.d[3]  N == e.d[4]
      sa == e.kind \in {"stacked", "bcast23"}  sb == e.kind \in {"stacked", "bcast1"}
      n4 == IF sa \/ sb THEN S ELSE 1
      A(s, m, k) == LET b == IF sa THEN s * M * K ELSE 0 IN V(1, b + (IF e.ta = 1 THEN k * M + m ELSE m * K + k))
      B(s, k, n) == LET b == IF sb THEN s * K * N ELSE 0 IN V(2, b + (IF e.tb = 1 THEN n * K + k ELSE k * N + n))
      C(s, n) == V(3, (IF sb THEN s * N ELSE 0) + n)
  IN /\ Len(y0) = n4 * M * N
     /\ \A x \in 0..(n4 * M * N) - 1 :
          LET s == x \div (M * N)  m == (x \div N) % M  n == x % N IN
          y0[x + 1] = ((e.fn + 1) * C(s, n) + Sum(K, LAMBDA k : A(s, m, k) * B(s, k, n))) % 30011
Answered(e) == e.obs.st = 0 /\ e.obs.over = 0 /\ e.obs.same = 1 /\ e.obs.left = 0
Allowed(e) ==
  CASE e.op = "ew" ->
         /\ Answered(e)
         /\ IF e.f = "softmax" THEN Softmax(e, e.obs.y)
            ELSE IF Len(e.at) > 0 THEN Len(e.obs.y) = Len(e.at) /\ \A i \in 1..Len(e.at) : e.obs.y[i] = Ew(e, e.at[i])
            ELSE Len(e.obs.y) = Size(Dims(e.lay, e.sh)) /\ \A x \in 1..Len(e.obs.y) : e.obs.y[x] = Ew(e, x - 1)
    [] e.op = "mm" -> Answered(e) /\ Mm(e, e.obs.y)
    [] e.op = "split" ->
         LET q == Dims(e.lay, e.sh)  T == Cuts(q, e.rq)  n == Count(q, T) IN
         /\ e.obs.ok = 1 /\ e.obs.whole = 1 /\ e.obs.n = n
         /\ e.obs.one = (IF Size(n) = 1 THEN 1 ELSE 0)
         /\ Len(e.obs.t) = Size(n)
         /\ \A j \in 1..Len(e.obs.t) :
              LET t == e.obs.t[j]  d == Extent(q, T, t.i) IN
              /\ t.i = Cell(n, IF e.order = "back" THEN Size(n) - j ELSE j - 1)
              /\ t.d = d /\ Len(t.v) = Size(d)
              /\ \A x \in 1..Len(t.v) : t.v[x] = V(1, Index(q, Plus(From(T, t.i), Cell(d, x - 1))))
         /\ Len(e.obs.y) = Size(q) /\ \A x \in 1..Len(e.obs.y) : e.obs.y[x] = V(1, x - 1) + 2000
    [] e.op = "per" -> e.obs.r = [i \in Ax |-> UpTo(Ceil(e.sh[i], e.n), Unit[i])]
Idle == full = <<1, 1, 1, 1>> /\ tile = <<1, 1, 1, 1>> /\ pc = <<>> /\ buf = <<>> /\ at = <<>> /\ y = <<>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE /\ Idle
Next == ok /\ l <= Len(Hist[h]) /\ ok' = Allowed(Hist[h][l]) /\ l' = l + 1 /\ h' = h /\ UNCHANGED <<full, tile, pc, buf, at, y>>
Spec == Init /\ [][Next]_<<h, l, ok, full, tile, pc, buf, at, y>>
Accepted == ok
===============================================================================
