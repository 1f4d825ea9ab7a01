------------------------------- MODULE PyOwn -------------------------------
(* Who holds the buffers behind the arrays a Python session returned.
   A slot holds an array the caller kept: its contents, and the buffer of the
   model it lives in (0: memory of its own).  A buffer is released when the
   last array in it goes, and never before.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NSlots, MaxOut
VARIABLES st, act
vars == <<st, act>>
Slots == 1..NSlots
None == [v |-> -1, g |-> 0]
InitSt == [hs |-> [i \in Slots |-> None], ver |-> 0, open |-> TRUE]
Owned == {"val", "valal"}
Code == [val |-> 1, valal |-> 2, const |-> 3, str |-> 4]
\* what the model may return at position p after the outputs before
Kind(prev, p) == [k : {"val", "valal", "const", "str"}, a : {p}] \cup {[k |-> "alias", a |-> 0]} \cup
                 {[k |-> kk, a |-> j - 1] : kk \in {"dup", "off"}, j \in {j \in 1..(p - 1) : prev[j].k \in Owned}}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(l, x) : x \in Kind(l, n)} : l \in Lists(n - 1)}
Good == UNION {Lists(n) : n \in 1..MaxOut}
Bad == {Append(l, [k |-> b, a |-> 0]) : l \in UNION {Lists(n) : n \in 0..(MaxOut - 1)}, b \in {"fp8", "bf16", "nullt", "behind"}}
\* the number the model is told to put in output p
Arg(o, p, ver) == IF o.k \in DOMAIN Code THEN 100 * Code[o.k] + 10 * p + ver ELSE o.a
RECURSIVE Val(_, _, _)
Val(os, p, ver) == IF os[p].k = "alias" THEN ver
                   ELSE IF os[p].k \in {"dup", "off"} THEN Val(os, os[p].a + 1, ver)
                   ELSE Arg(os[p], p, ver)
\* the output whose buffer output p lives in
Root(os, p) == IF os[p].k \in Owned THEN p ELSE IF os[p].k \in {"dup", "off"} THEN os[p].a + 1 ELSE 0
Free(s) == {i \in Slots : s.hs[i] = None}
Groups(s) == {s.hs[i].g : i \in Slots} \ {0}
RECURSIVE Nth(_, _)
Nth(S, n) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF n = 1 THEN m ELSE Nth(S \ {m}, n - 1)
Returned(s, os, mode) ==
  LET fresh == (1..(2 * NSlots)) \ Groups(s)
      roots == {Root(os, p) : p \in 1..Len(os)} \ {0}
      G(p) == IF mode \in {"c", "sc"} \/ Root(os, p) = 0 THEN 0
              ELSE Nth(fresh, Cardinality({q \in roots : q <= Root(os, p)}))
      at == [p \in 1..Len(os) |-> Nth(Free(s), p)]
  IN [s EXCEPT !.hs = [i \in Slots |-> IF \E p \in 1..Len(os) : at[p] = i
                                       THEN LET p == CHOOSE p \in 1..Len(os) : at[p] = i IN [v |-> Val(os, p, s.ver), g |-> G(p)]
                                       ELSE s.hs[i]]]
A(op, outs, fail, mode, i, err) == [op |-> op, outs |-> outs, fail |-> fail, mode |-> mode, i |-> i, err |-> err, named |-> 0]
Live(s) == Cardinality(Groups(s))
Init == st = InitSt /\ act = A("init", <<>>, "", "", 0, 0)
Do(a, s) == st' = s /\ act' = [a EXCEPT !.named = Live(s)]
Told(os) == [p \in 1..Len(os) |-> [k |-> os[p].k, a |-> Arg(os[p], p, st.ver)]]
Modes == {"plain", "c", "s", "sc"}
Alone(s, i) == s.hs[i].g = 0 \/ \A j \in Slots \ {i} : s.hs[j].g # s.hs[i].g
Next ==
  \/ \E os \in Good, m \in Modes : st.open /\ Len(os) <= Cardinality(Free(st)) /\ Do(A("orun", Told(os), "", m, 0, 0), Returned(st, os, m))
  \/ \E os \in Bad, m \in Modes : st.open /\ Do(A("orun", Told(os), "", m, 0, 1), st)
  \/ \E m \in Modes : st.open /\ Do(A("orun", <<>>, "null", m, 0, 1), st)
  \/ \E m \in {"s", "sc"}, f \in {"segv", "abrt"} : st.open /\ Do(A("orun", <<>>, f, m, 0, 1), st)
  \/ \E i \in Slots : st.hs[i] # None /\ Do(A("odel", <<>>, "", "", i, 0), [st EXCEPT !.hs[i] = None])
  \/ \E i \in Slots : st.hs[i] # None /\ Do(A("oview", <<>>, "", "", i, 0), st)
  \/ \E i \in Slots : st.hs[i] # None /\ Alone(st, i) /\ Do(A("owrite", <<>>, "", "", i, 0), [st EXCEPT !.hs[i].v = 99])
  \/ \E h \in {"new", "old"} : Do(A("oin", <<>>, "", h, 1 - st.ver, 0), [st EXCEPT !.ver = 1 - st.ver])
  \/ st.open /\ Do(A("oclose", <<>>, "", "", 0, 0), [st EXCEPT !.open = FALSE])
  \/ ~st.open /\ Do(A("oopen", <<>>, "", "", 0, 0), [st EXCEPT !.open = TRUE])
Spec == Init /\ [][Next]_vars
View == st
Dump == PrintT(ToJson([f |-> st, a |-> act', t |-> st']))
ASSUME PrintT(ToJson([init |-> InitSt]))
\* design: buffers never outlive the arrays in them, nothing but its own
\* deletion or overwriting changes an array
Bounded == Live(st) <= NSlots
Stable == [][\A i \in Slots : st.hs[i] # None /\ st'.hs[i] # st.hs[i] => act'.op \in {"odel", "owrite"} /\ act'.i = i]_vars
=============================================================================
