------------------------------ MODULE SmallFloat ------------------------------
(* The small floating-point formats, in integer arithmetic: what number a bit
   pattern denotes and which pattern a number rounds to.  Wide values are given
   as <<kind, sign, M, E>> with value (-1)^sign * M * 2^E, 0 <= M < 2^28; the
   last bit of M may be a sticky bit standing for all lower ones.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
\* bits, mantissa bits, bias, largest finite pattern, flavour
Fmt == [ f16  |-> [w |-> 16, mb |-> 10, bias |-> 15,  maxp |-> 31743, fl |-> "ieee"],
         bf16 |-> [w |-> 16, mb |-> 7,  bias |-> 127, maxp |-> 32639, fl |-> "ieee"],
         e5m2 |-> [w |-> 8,  mb |-> 2,  bias |-> 15,  maxp |-> 123,   fl |-> "ieee"],
         e4m3fn |-> [w |-> 8, mb |-> 3, bias |-> 7,   maxp |-> 126,   fl |-> "fn"],
         e4m3fnuz |-> [w |-> 8, mb |-> 3, bias |-> 8, maxp |-> 127,   fl |-> "fnuz"],
         e5m2fnuz |-> [w |-> 8, mb |-> 2, bias |-> 16, maxp |-> 127,  fl |-> "fnuz"] ]
SignBit(F) == 2^(F.w - 1)
Sgn(F, p) == p \div SignBit(F)
Mag(F, p) == p % SignBit(F)
IsNaN(F, p) == CASE F.fl = "ieee" -> Mag(F, p) > F.maxp + 1
                 [] F.fl = "fn" -> Mag(F, p) = F.maxp + 1
                 [] OTHER -> p = SignBit(F)
IsInf(F, p) == F.fl = "ieee" /\ Mag(F, p) = F.maxp + 1
BitLen(m) == CHOOSE i \in 0..29 : (i = 0 /\ m = 0) \/ (i > 0 /\ 2^(i-1) <= m /\ m < 2^i)
RECURSIVE Odd(_, _)
Odd(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 1 THEN <<m, e>> ELSE Odd(m \div 2, e + 1)
QMin(F) == 1 - F.bias - F.mb
\* the number a pattern denotes, M odd
Denote(F, p) ==
  IF IsNaN(F, p) THEN <<"nan", 0, 0, 0>>
  ELSE IF IsInf(F, p) THEN <<"inf", Sgn(F, p), 0, 0>>
  ELSE LET ef == Mag(F, p) \div 2^F.mb  man == Mag(F, p) % 2^F.mb
           o == IF ef = 0 THEN Odd(man, QMin(F)) ELSE Odd(2^F.mb + man, QMin(F) + ef - 1)
       IN <<"fin", Sgn(F, p), o[1], o[2]>>
Half(m, sh) == \* m / 2^sh rounded to nearest, ties to even
  IF sh > 29 THEN 0
  ELSE LET d == 2^sh  k == m \div d  r == m % d IN
       IF 2 * r > d THEN k + 1 ELSE IF 2 * r < d THEN k ELSE k + (k % 2)
Magnitude(F, m, e) ==
  IF m = 0 THEN 0
  ELSE LET top == BitLen(m) - 1 + e - F.mb
           q == IF top > QMin(F) THEN top ELSE QMin(F)
           sh == q - e
           k == IF sh <= 0 THEN m * 2^(-sh) ELSE Half(m, sh)
       IN IF q - QMin(F) > 4096 THEN F.maxp + 1
          ELSE IF k = 0 THEN 0 ELSE (q - QMin(F)) * 2^F.mb + k
RoundsTo(F, v, p) ==
  CASE v[1] = "nan" -> IsNaN(F, p)
    [] v[1] = "inf" -> IF F.fl = "ieee" THEN p = v[2] * SignBit(F) + F.maxp + 1 ELSE IsNaN(F, p)
    [] OTHER -> LET g == Magnitude(F, v[3], v[4]) IN
         IF g > F.maxp THEN (IF F.fl = "ieee" THEN p = v[2] * SignBit(F) + F.maxp + 1 ELSE IsNaN(F, p))
         ELSE IF g = 0 /\ F.fl = "fnuz" THEN p = 0
         ELSE p = v[2] * SignBit(F) + g
Zero(F, p) == Mag(F, p) = 0 /\ ~IsNaN(F, p)
Same(F, p, q) == ~IsNaN(F, p) /\ ~IsNaN(F, q) /\ (p = q \/ (Zero(F, p) /\ Zero(F, q)))

\* row of a widening: the pattern's number by every route, NaN test, the way back
WidenOK(F, p, r) ==
  LET d == Denote(F, p) IN
  /\ \A x \in 1..Len(r.to) : r.to[x] = d
  /\ r.nan = (IF IsNaN(F, p) THEN 1 ELSE 0)
  /\ \A x \in 1..Len(r.back) : IF IsNaN(F, p) THEN IsNaN(F, r.back[x]) ELSE r.back[x] = p
Step(e) == LET F == Fmt[e.fmt] IN
  CASE e.op = "widen" -> Len(e.obs.rows) = e.n /\ \A i \in 1..Len(e.obs.rows) : WidenOK(F, e.first + i - 1, e.obs.rows[i])
    [] e.op = "narrow" -> Len(e.obs.rows) = Len(e.vs) /\ \A i \in 1..Len(e.vs) : \A x \in 1..Len(e.obs.rows[i]) : RoundsTo(F, e.vs[i], e.obs.rows[i][x])
    [] e.op = "eq" -> \A i \in 1..Len(e.ps) :
         /\ e.obs.eq[i] = (IF Same(F, e.ps[i][1], e.ps[i][2]) THEN 1 ELSE 0)
         /\ e.obs.ne[i] = 1 - e.obs.eq[i]
    [] e.op = "max" -> e.obs.max = Denote(F, F.maxp)
\* the formats themselves: rounding a denoted number returns its pattern, and
\* magnitudes are ordered as their patterns (checked by TLC for every pattern)
Less(a, b) == LET k == IF a[4] < b[4] THEN a[4] ELSE b[4]
                  wide == (BitLen(a[3]) + a[4]) - (BitLen(b[3]) + b[4]) IN
              IF a[3] = 0 THEN b[3] > 0 ELSE IF b[3] = 0 THEN FALSE
              ELSE IF wide # 0 THEN wide < 0 ELSE a[3] * 2^(a[4] - k) < b[3] * 2^(b[4] - k)
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE
Next == ok /\ l <= Len(Hist[h]) /\ ok' = Step(Hist[h][l]) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, ok>>
Accepted == ok

\* stand-alone check of the formats: one state per pattern
SelfInit == h \in DOMAIN Fmt /\ l \in 0..32767 /\ l <= Fmt[h].maxp /\ ok = TRUE
SelfSpec == SelfInit /\ [][FALSE]_<<h, l, ok>>
SelfOK == LET F == Fmt[h]  d == Denote(F, l) IN
  /\ RoundsTo(F, d, l)
  /\ l < F.maxp => LET n == Denote(F, l + 1) IN
       /\ Less(d, n)
       \* the midpoint of neighbours is the boundary
       /\ LET k == IF d[3] = 0 THEN n[4] ELSE IF d[4] < n[4] THEN d[4] ELSE n[4]
              mid == (IF d[3] = 0 THEN 0 ELSE d[3] * 2^(d[4] - k)) + n[3] * 2^(n[4] - k) IN
          /\ Magnitude(F, 2 * mid - 1, k - 2) = l /\ Magnitude(F, 2 * mid + 1, k - 2) = l + 1
          /\ Magnitude(F, mid, k - 1) = (IF l % 2 = 0 THEN l ELSE l + 1)
=============================================================================
