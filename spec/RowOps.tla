------------------------------ MODULE RowOps ------------------------------
(* Definitions of the runtime's sort, TopK and Unique, and validation of   *)
(* recorded calls against them.  Element values are abstracted to integer  *)
(* keys with the same order (equal values, equal keys).                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

\* a is before b in direction asc
Before(asc, a, b) == IF asc = 1 THEN a < b ELSE a > b
\* position i of row r comes strictly before position j: by value, then index
Better(r, asc, i, j) == \/ Before(asc, r[i + 1], r[j + 1])
                        \/ r[i + 1] = r[j + 1] /\ i < j
Range0(s) == {s[i] : i \in 1..Len(s)}
Ordered(r, asc, o, k) == \A i \in 1..(k - 1) : Better(r, asc, o[i], o[i + 1])

SortOK(r, asc, o) == /\ Len(o) = Len(r)
                     /\ Range0(o) = 0..(Len(r) - 1)
                     /\ Ordered(r, asc, o, Len(r))
TopKOK(r, asc, k, sorted, o) ==
  LET sel == {o[i] : i \in 1..k}
      rest == (0..(Len(r) - 1)) \ sel IN
  /\ Cardinality(sel) = k /\ sel \subseteq 0..(Len(r) - 1)
  /\ \A u \in rest, s \in sel : Better(r, asc, s, u)
  /\ sorted = 1 => Ordered(r, asc, o, k)

\* ------------------------------------------------------------------ Unique
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* the slices along axis (0-based) of row-major data d with shape sh,
\* each slice in row-major order of the remaining dimensions
Slices(sh, d, axis) ==
  LET n == sh[axis + 1]
      inner == Prod(SubSeq(sh, axis + 2, Len(sh)))
      outer == Prod(SubSeq(sh, 1, axis)) IN
  [j \in 1..n |-> [e \in 1..(outer * inner) |->
     d[((e - 1) \div inner) * n * inner + (j - 1) * inner + ((e - 1) % inner) + 1]]]
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))
\* positions (0-based) of first occurrences, in order
FirstPos(S) == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : \A j \in 1..(i - 1) : S[j] # S[i])
UniqueOf(S, sorted) ==
  LET f == FirstPos(S) IN
  IF sorted = 1 THEN SortSeq(f, LAMBDA i, j : LexLess(S[i], S[j])) ELSE f
\* rebuild the row-major data of shape sh with axis length c from slices
Unslice(sh, axis, T) ==
  LET c == Len(T)
      inner == Prod(SubSeq(sh, axis + 2, Len(sh)))
      outer == Prod(SubSeq(sh, 1, axis)) IN
  [p \in 1..(outer * c * inner) |->
     LET o == (p - 1) \div (c * inner)
         j == ((p - 1) \div inner) % c
         i == (p - 1) % inner IN T[j + 1][o * inner + i + 1]]
PosIn(u, S, x) == CHOOSE p \in 1..Len(u) : S[u[p]] = x
UniqueOK(e) ==
  LET S == IF e.axis < 0 THEN [i \in 1..Len(e.d) |-> <<e.d[i]>>]
           ELSE Slices(e.shape, e.d, e.axis)
      u == UniqueOf(S, e.sorted)
      T == [i \in 1..Len(u) |-> S[u[i]]] IN
  /\ e.obs.total = Len(u) /\ e.obs.countonly = Len(u)
  /\ e.my = 1 => e.obs.y = IF e.axis < 0 THEN [i \in 1..Len(u) |-> T[i][1]]
                           ELSE Unslice(e.shape, e.axis, T)
  /\ e.mi = 1 => e.obs.idx = [i \in 1..Len(u) |-> u[i] - 1]
  /\ e.mv = 1 => e.obs.inv = [j \in 1..Len(S) |-> PosIn(u, S, S[j]) - 1]
  /\ e.mc = 1 => e.obs.cnt = [i \in 1..Len(u) |-> Cardinality({j \in 1..Len(S) : S[j] = T[i]})]
  /\ e.obs.same = 1

RowsOK(e, P(_, _)) == /\ e.obs.same = 1 /\ Len(e.obs.rows) = Len(e.rows)
                      /\ \A i \in 1..Len(e.rows) : P(e.rows[i], e.obs.rows[i])
EventOK(e) ==
  CASE e.op = "sort" -> RowsOK(e, LAMBDA r, o : SortOK(r, e.asc, o))
    [] e.op = "topk" -> RowsOK(e, LAMBDA r, o : TopKOK(r, e.asc, e.k, e.sorted, o))
    [] e.op = "unique" -> UniqueOK(e)

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ ok' = EventOK(Hist[h][l])
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, ok>>
Accepted == ok
============================================================================
