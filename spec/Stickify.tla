------------------------------- MODULE Stickify -------------------------------
(* Constants laid out for the NNPA accelerator.  A ztensor has a descriptor, a
   buffer and a mark that it holds data.  The buffer is a row of pages of PerPage
   sticks of 2 * Cells bytes: the innermost dimension is cut into pieces of Cells
   elements, a piece is a stick, and sticks of consecutive dim2 fill pages of
   their own.  Numbers are DLFLOAT16: sign, 6 bits of exponent with bias 31, 9 of
   fraction; the nearest one is taken, ties away from zero, the largest one for
   what is beyond, zero for what is below the smallest.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Cells, PerPage
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, z, ok
Ceil(a, b) == (a + b - 1) \div b
Padded(x) == Ceil(x, Cells) * Cells

(* ------------------------------- numbers -------------------------------- *)
\* a float as <<sign, exponent field, fraction field>>
Bias32 == 127
Largest == 32766
NoNumber == 32767
Nearest(f) ==
  LET s == f[1] * 32768
      r == (f[3] + 8192) \div 16384               \* the fraction in 512ths, rounded
      e == f[2] - Bias32 + 31 + r \div 512
      p == e * 512 + (r % 512)
  IN IF f[2] = 255 /\ f[3] # 0 THEN {NoNumber, 32768 + NoNumber}
     ELSE IF f[2] = 255 \/ p > Largest THEN {s + Largest}
     ELSE IF p <= 0 THEN {s} ELSE {s + p}
\* what a pattern stands for
Denote(p) == LET m == p % 32768  s == p \div 32768 IN
  IF m = NoNumber THEN <<"nan">> ELSE IF m = 0 THEN <<s, 0, 0>>
  ELSE <<s, m \div 512 - 31 + Bias32, (m % 512) * 16384>>
\* the number k/4 as a float, 0 < |k| < 512
Log(k) == CHOOSE i \in 0..8 : 2^i <= k /\ k < 2^(i + 1)
Quarter(k) == IF k = 0 THEN <<0, 0, 0>>
  ELSE LET a == IF k < 0 THEN -k ELSE k  e == Log(a) IN
       <<IF k < 0 THEN 1 ELSE 0, Bias32 + e - 2, a * 2^(23 - e) - 2^23>>

(* ------------------------------- layouts -------------------------------- *)
Rank == [x \in {"1D", "2D", "2DS", "3D", "3DS", "4D", "NHWC", "NCHW", "HWCK"} |->
  CASE x = "1D" -> 1 [] x \in {"2D", "2DS"} -> 2 [] x \in {"3D", "3DS"} -> 3 [] OTHER -> 4]
\* dimensions (dim4, dim3, dim2, dim1) of a plain tensor
PlainDims(lay, sh) ==
  CASE lay = "1D" -> <<1, 1, 1, sh[1]>>
    [] lay = "2D" -> <<1, 1, sh[1], sh[2]>>
    [] lay = "2DS" -> <<sh[1], 1, 1, sh[2]>>
    [] lay = "3D" -> <<1, sh[1], sh[2], sh[3]>>
    [] lay = "3DS" -> <<sh[1], 1, sh[2], sh[3]>>
    [] lay = "NCHW" -> <<sh[1], sh[3], sh[4], sh[2]>>
    [] OTHER -> sh
Gates(u) == CASE u.rnn = "lstm" -> 4 [] u.rnn = "gru" -> 3 [] OTHER -> 1
Stacked(u) == u.use = "w" /\ u.prev = "bidir"       \* halves of the rows come from two directions
\* what a descriptor of this input becomes; u is [use, rnn, prev], use "plain" or "q..." or of a recurrent layer
Described(lay, sh, u) ==
  IF u.use \in {"plain", "qdlf", "qint", "qw"}
  THEN [st |-> "OK", dims |-> PlainDims(lay, sh),
        lay |-> IF lay = "HWCK" THEN "HWCK" ELSE "NHWC",
        fmt |-> IF u.use = "qw" THEN "WEIGHTS" ELSE IF u.use # "plain" THEN "FEATURE" ELSE IF lay = "HWCK" THEN "KERNEL" ELSE "FEATURE",
        ty |-> IF u.use \in {"qint", "qw"} THEN "INT8" ELSE "DLF"]
  ELSE IF Stacked(u) /\ lay \in {"2D", "2DS", "3D", "3DS"} /\ sh[Len(sh) - 1] % 2 = 1 THEN [st |-> "INVALID_SHAPE"]
  ELSE IF lay # (IF u.use \in {"b", "hb"} THEN "2DS" ELSE "3DS") THEN [st |-> "INVALID_LAYOUT"]
  ELSE [st |-> "OK",
        dims |-> <<sh[1], 1, IF Len(sh) = 2 THEN 1 ELSE IF Stacked(u) THEN 2 * Padded(sh[2] \div 2) ELSE sh[2],
                   Gates(u) * Padded(sh[Len(sh)])>>,
        lay |-> (IF Stacked(u) THEN "BIDIR_" ELSE "") \o (IF u.rnn = "lstm" THEN "FICO" ELSE "ZRH"),
        fmt |-> "FEATURE", ty |-> "DLF"]
Rows(D, d2) == IF D.fmt = "WEIGHTS" THEN Ceil(d2, 2) ELSE d2
PieceLen(D) == IF D.ty = "INT8" /\ D.fmt # "WEIGHTS" THEN 2 * Cells ELSE Cells
Pages(D) == D.dims[1] * D.dims[2] * Ceil(Rows(D, D.dims[3]), PerPage) * Ceil(D.dims[4], PieceLen(D))
PageBytes == 2 * Cells * PerPage
\* the first byte of the element at (a, b, c, d) of (dim4, dim3, dim2, dim1)
At(D, a, b, c, d) ==
  LET row == IF D.fmt = "WEIGHTS" THEN c \div 2 ELSE c
      per == Ceil(Rows(D, D.dims[3]), PerPage)          \* pages for one stretch of dim2
      piece == d \div Cells
      page == IF D.fmt = "KERNEL" THEN ((piece * D.dims[1] + a) * D.dims[2] + b) * per + row \div PerPage
              ELSE ((a * Ceil(D.dims[4], Cells) + piece) * D.dims[2] + b) * per + row \div PerPage
  IN page * PageBytes + (row % PerPage) * 2 * Cells + (d % Cells) * 2 + (IF D.fmt = "WEIGHTS" THEN c % 2 ELSE 0)
\* where element x (0-based, row-major) of gate g of the input goes
Size(sh) == LET RECURSIVE P(_)  P(i) == IF i = 0 THEN 1 ELSE sh[i] * P(i - 1) IN P(Len(sh))
Last(sh) == sh[Len(sh)]
Place(D, lay, sh, u, g, x) ==
  IF u.use \in {"plain", "qdlf", "qint", "qw"}
  THEN LET q == IF lay = "NCHW" THEN sh ELSE D.dims
           i4 == x % q[4]  i3 == (x \div q[4]) % q[3]  i2 == (x \div (q[4] * q[3])) % q[2]  i1 == x \div (q[4] * q[3] * q[2])
       IN IF lay = "NCHW" THEN At(D, i1, i3, i4, i2) ELSE At(D, i1, i2, i3, i4)
  ELSE LET n == Last(sh)  c == x % n
           m == IF Len(sh) = 2 THEN 1 ELSE sh[2]
           r == (x \div n) % m  s == x \div (n * m)
           half == m \div 2
           row == IF Stacked(u) THEN (r \div half) * Padded(half) + (r % half) ELSE r
       IN At(D, s, 0, row, g * Padded(n) + c)

(* ------------------------------- the tensor ----------------------------- *)
Empty == [desc |-> [st |-> "none"], in |-> [lay |-> "", sh |-> <<>>, u |-> [use |-> "", rnn |-> "", prev |-> ""], ty |-> ""], buf |-> "none", done |-> FALSE]
\* the answer to stickify
Answer(s) ==
  IF s.in.ty \notin {"FP32", "FP16", "BFLOAT", "INT8"} THEN "INVALID_TYPE"
  ELSE IF s.buf # "right" THEN "INVALID_BUFFER"
  ELSE IF s.done THEN "INVALID_STATE"
  ELSE IF s.in.ty # "FP32" THEN "CONVERT_FAILURE"
  ELSE "OK"
Expected(s, d) ==
  UNION {{<<Place(s.desc, s.in.lay, s.in.sh, s.in.u, g - 1, x - 1), CHOOSE p \in Nearest(Quarter(d[g][x])) : TRUE>>
          : x \in {i \in 1..Len(d[g]) : d[g][i] # 0}} : g \in 1..Len(d)}
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* int8 weights: dim2 in pairs, the partner of the last row of an odd dim2 is anything
Bytes(s, d) == {<<Place(s.desc, s.in.lay, s.in.sh, s.in.u, 0, x - 1), d[1][x]>> : x \in 1..Len(d[1])}
WeightsOK(s, d, cells) ==
  /\ Bytes(s, d) \subseteq SetOf(cells)
  /\ \A c \in SetOf(cells) \ Bytes(s, d) :
       s.desc.dims[3] % 2 = 1 /\ c[1] % 2 = 1 /\ \E b \in {y[1] : y \in Bytes(s, d)} : b = c[1] - 1
Fresh(e) == [desc |-> Described(e.lay, e.sh, e.u), in |-> [lay |-> e.lay, sh |-> e.sh, u |-> e.u, ty |-> e.ty], buf |-> "none", done |-> FALSE]
Allowed(s, e) ==
  CASE e.op = "desc" -> LET D == Described(e.lay, e.sh, e.u) IN
         /\ e.obs.st = D.st
         /\ D.st = "OK" => e.obs.dims = D.dims /\ e.obs.lay = D.lay /\ e.obs.fmt = D.fmt /\ e.obs.ty = D.ty
    [] e.op = "alloc" -> e.obs.st = "OK" /\ e.obs.aligned = 1 /\ e.obs.size = Pages(s.desc) * PageBytes /\ e.obs.left = 0
    [] e.op = "buf" -> TRUE
    [] e.op = "stick" ->
         /\ e.obs.st = Answer(s)
         /\ e.obs.same = 1
         /\ IF e.obs.st = "OK"
            THEN e.obs.done = 1 /\ e.obs.alike = 1 /\ SetOf(e.obs.cells) = Expected(s, e.d)
            ELSE e.obs.done = (IF s.done THEN 1 ELSE 0) /\ (e.obs.st # "CONVERT_FAILURE" => e.obs.kept = 1)
    [] e.op = "weights" -> e.obs.st = "OK" /\ e.obs.same = 1 /\ e.obs.done = 1 /\ WeightsOK(s, e.d, e.obs.cells)
    [] e.op = "conv" -> Len(e.obs.p) = Len(e.vs) /\ e.obs.n = Len(e.vs) /\ \A i \in 1..Len(e.vs) : e.obs.p[i] \in Nearest(e.vs[i])
    [] e.op = "back" -> Len(e.obs.v) = e.n /\ \A i \in 1..e.n : e.obs.v[i] = Denote(e.first + i - 1)
After(s, e) ==
  CASE e.op = "desc" -> Fresh(e)
    [] e.op = "buf" -> [s EXCEPT !.buf = e.how, !.done = FALSE]
    [] e.op \in {"stick", "weights"} -> [s EXCEPT !.done = @ \/ e.obs.st = "OK"]
    [] OTHER -> s
Init == h \in 1..Len(Hist) /\ l = 1 /\ z = Empty /\ ok = TRUE
Next == ok /\ l <= Len(Hist[h]) /\ ok' = Allowed(z, Hist[h][l]) /\ z' = (IF ok' THEN After(z, Hist[h][l]) ELSE z) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, z, ok>>
Accepted == ok

(* The layout itself, for small sticks and pages: no two elements share a byte,
   all of them lie in the buffer, and elements next to each other in a stick of
   the input are next to each other in the buffer.                            *)
Uses == {[use |-> "plain", rnn |-> "", prev |-> ""], [use |-> "qw", rnn |-> "", prev |-> ""]} \cup
        [use : {"w", "hw", "b", "hb"}, rnn : {"lstm", "gru"}, prev : {"uni", "bidir"}]
Shapes(n, r) == [1..r -> 1..n]
SelfInit == /\ \E lay \in DOMAIN Rank, u \in Uses : \E sh \in Shapes(IF Rank[lay] = 4 THEN 3 ELSE 5, Rank[lay]) :
                 z = Fresh([lay |-> lay, sh |-> sh, u |-> u, ty |-> "FP32"])
            /\ h = 1 /\ l = 1 /\ ok = TRUE
SelfSpec == SelfInit /\ [][FALSE]_<<h, l, z, ok>>
SelfOK == z.desc.st = "OK" =>
  LET n == Size(z.in.sh)
      P == {<<g, x>> : g \in 0..Gates(z.in.u) - 1, x \in 0..n - 1}
      To == [p \in P |-> Place(z.desc, z.in.lay, z.in.sh, z.in.u, p[1], p[2])]
      w == IF z.desc.fmt = "WEIGHTS" THEN 1 ELSE 2
  IN /\ Cardinality({To[p] : p \in P}) = Gates(z.in.u) * n
     /\ \A p \in P : To[p] >= 0 /\ To[p] + w <= Pages(z.desc) * PageBytes /\ To[p] % w = 0
     /\ (z.in.lay # "NCHW") => \A p \in P : (p[2] + 1) % Last(z.in.sh) # 0 /\ ((p[2] % Last(z.in.sh)) + 1) % Cells # 0 => To[<<p[1], p[2] + 1>>] = To[p] + 2
     \* a tensor's last page is used
     /\ \E p \in P : To[p] >= (Pages(z.desc) - 1) * PageBytes
\* every pattern is the nearest to itself, and to its neighbourhood
NumInit == l \in 0..65535 /\ h = 1 /\ z = Empty /\ ok = TRUE
NumSpec == NumInit /\ [][FALSE]_<<h, l, z, ok>>
NumOK == LET d == Denote(l) IN (l % 32768 # NoNumber) =>
  /\ Nearest(d) = {l}
  /\ l % 32768 # 0 => /\ (d[3] < 2^23 - 8192) => l \in Nearest(<<d[1], d[2], d[3] + 8191>>)
                      /\ d[3] >= 8192 => l \in Nearest(<<d[1], d[2], d[3] - 8192>>) /\ ~(l \in Nearest(<<d[1], d[2], d[3] - 8193>>))
===============================================================================
