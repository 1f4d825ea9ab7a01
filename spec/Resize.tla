------------------------------- MODULE Resize -------------------------------
(* Resize of a rank-4 tensor by rational factors num/den per dimension, with
   the half-pixel coordinate transformation, as exact integer arithmetic:
   along one dimension output index x reads the input around
     xo = (x + 1/2) * den / num - 1/2 = ((2x+1)*den - num) / (2*num),
   with weights over a common denominator W (linear 2*num, cubic
   4*(2*num)^3, nearest 1), borders replicating the edge element.  An output
   element is the sum over the product of the four neighbourhoods.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
FloorDiv(a, b) == a \div b                     \* TLC's \div floors
Lo(x, num, den) == FloorDiv((2 * x + 1) * den - num, 2 * num)
Rem(x, num, den) == ((2 * x + 1) * den - num) - 2 * num * Lo(x, num, den)   \* ratio numerator over 2*num
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
W(mode, num) == CASE mode = "linear" -> 2 * num
                  [] mode = "nearest" -> 1
                  [] mode = "cubic" -> 4 * (2 * num) * (2 * num) * (2 * num)
\* cubic coefficients with a = -3/4, multiplied by 4*D^3; t is the distance numerator over D
CubicNear(t, D) == 5 * t * t * t - 9 * t * t * D + 4 * D * D * D
CubicFar(t, D) == -3 * t * t * t + 15 * t * t * D - 24 * t * D * D + 12 * D * D * D
\* <<input offset from Lo, weight>> pairs
Taps(mode, r, D) ==
  CASE mode = "linear" -> <<<<0, D - r>>, <<1, r>>>>
    [] mode = "nearest" -> IF 2 * r <= D THEN <<<<0, 1>>>> ELSE <<<<1, 1>>>>
    [] mode = "cubic" -> <<<<-1, CubicFar(D + r, D)>>, <<0, CubicNear(r, D)>>,
                           <<1, CubicNear(D - r, D)>>, <<2, CubicFar(2 * D - r, D)>>>>
\* one dimension: weighted input indices of output index x; a factor of one is the identity
Dim(mode, x, n, num, den) ==
  IF num = den THEN <<<<x, 1>>>>
  ELSE LET D == 2 * num lo == Lo(x, num, den) T == Taps(mode, Rem(x, num, den), D) IN
       [i \in 1..Len(T) |-> <<Clamp(lo + T[i][1], n), T[i][2]>>]
DimW(mode, num, den) == IF num = den THEN 1 ELSE W(mode, num)
RECURSIVE SumOver(_, _)
SumOver(n, F) == IF n = 0 THEN 0 ELSE F[n] + SumOver(n - 1, F)
At(e, a, b, c, d) == e.d[((a * e.sh[2] + b) * e.sh[3] + c) * e.sh[4] + d + 1]
\* the exact output times the product of the four weights' denominators
Value(e, o) ==
  LET D(k) == Dim(e.mode, o[k], e.sh[k], e.num[k], e.den[k])
      A == D(1) B == D(2) C == D(3) E == D(4) IN
  SumOver(Len(A), [i \in 1..Len(A) |-> A[i][2] *
    SumOver(Len(B), [j \in 1..Len(B) |-> B[j][2] *
      SumOver(Len(C), [k \in 1..Len(C) |-> C[k][2] *
        SumOver(Len(E), [m \in 1..Len(E) |-> E[m][2] * At(e, A[i][1], B[j][1], C[k][1], E[m][1])])])])])
Total(e) == DimW(e.mode, e.num[1], e.den[1]) * DimW(e.mode, e.num[2], e.den[2])
            * DimW(e.mode, e.num[3], e.den[3]) * DimW(e.mode, e.num[4], e.den[4])
Abs(x) == IF x < 0 THEN -x ELSE x
\* row-major index of output element p (0-based)
Idx(p, s) == <<p \div (s[2] * s[3] * s[4]), (p \div (s[3] * s[4])) % s[2], (p \div s[4]) % s[3], p % s[4]>>
EventOK(e) ==
  /\ e.obs.same = 1
  /\ e.total = Total(e)                       \* the denominator used to encode the output
  /\ Len(e.obs.y) = e.out[1] * e.out[2] * e.out[3] * e.out[4]
  /\ \A k \in 1..4 : e.out[k] = (e.sh[k] * e.num[k]) \div e.den[k]
  /\ \A p \in 1..Len(e.obs.y) : Abs(e.obs.y[p] - Value(e, Idx(p - 1, e.out))) <= e.tol
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h]) /\ ok' = EventOK(Hist[h][l]) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, ok>>
Accepted == ok
=============================================================================
