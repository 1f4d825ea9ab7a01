------------------------------- MODULE DispPool -------------------------------
(* The pool of disposable constants.  A slot is an attribute of an operation of
   the module: it holds nothing ("n"), a dense constant ("d") or a disposable
   one ("x") that reads buffer b (0: memory it does not share with a tracked
   buffer).  A tracked buffer is live until every constant made from it has been
   given up.  `bulk` summarises constants created concurrently by threads.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dict,      \* slots the collector is told about
          Others,    \* slots it is not told about
          MaxB, Kinds
VARIABLES st, act
vars == <<st, act>>
Slots == Dict \union Others
Nothing == [k |-> "n", b |-> 0, v |-> <<>>]
NoBulk == [live |-> 0, x |-> 0, d |-> 0]
InitSt == [s |-> [i \in Slots |-> Nothing], live |-> {}, nb |-> 0, active |-> TRUE, held |-> FALSE, bulk |-> NoBulk]
\* contents of the b-th buffer; every third one repeats the contents of the one before
Base(b) == LET q == IF b % 3 = 0 THEN b - 1 ELSE b IN <<q, q + 100, q + 200, q + 300>>
\* 2x2 constants derived from others: transposed, negated, reversed
Derived(f, v) == CASE f = "tr" -> <<v[1], v[3], v[2], v[4]>>
                   [] f = "ng" -> [i \in 1..4 |-> 0 - v[i]]
                   [] f = "sl" -> <<v[4], v[3], v[2], v[1]>>
Shares(f) == f \in {"tr", "ng"}       \* reads the buffer it is made from
Put(s, dst, x) == IF dst = 0 THEN s ELSE [s EXCEPT !.s[dst] = x]
Made(s, dst, b, v) ==
  IF s.active THEN [Put(s, dst, [k |-> "x", b |-> b, v |-> v]) EXCEPT !.held = TRUE]
  ELSE Put(s, dst, [k |-> "d", b |-> 0, v |-> v])
New(s, dst) == LET n == s.nb + 1 IN
  Made([s EXCEPT !.nb = n, !.live = IF s.active THEN @ \union {n} ELSE @], dst, n, Base(n))
Derive(s, f, src, dst) == LET x == s.s[src] IN Made(s, dst, IF Shares(f) /\ x.k = "x" THEN x.b ELSE 0, Derived(f, x.v))
Reachable(s) == {i \in Dict : s.s[i].k = "x"}
Cleared(s, x) == [i \in Slots |-> IF x.s[i].k # "x" THEN x.s[i] ELSE IF i \in Others THEN Nothing ELSE s[i]]
Collect(s) == [s EXCEPT !.s = Cleared(s.s, s), !.live = {s.s[i].b : i \in Reachable(s)} \ {0},
                        !.held = (Reachable(s) # {} \/ s.bulk.x > 0), !.bulk.live = s.bulk.x]
Scrub(s) == [s EXCEPT !.s = Cleared([i \in Slots |-> [k |-> "d", b |-> 0, v |-> s.s[i].v]], s), !.live = {}, !.held = FALSE,
                      !.bulk = [live |-> 0, x |-> 0, d |-> s.bulk.d + s.bulk.x]]
\* t threads make n constants each, of which the module keeps k in all
Bulk(s, t, n, k) == IF s.active THEN [s EXCEPT !.held = TRUE, !.bulk = [live |-> @.live + t * n + 1, x |-> @.x + k, d |-> @.d]]
                    ELSE [s EXCEPT !.bulk.d = @ + k]
Can(s, e) ==
  CASE e.op = "new" -> s.nb < MaxB
    [] e.op = "derive" -> s.s[e.src].k # "n"
    [] e.op = "copy" -> s.s[e.src].k # "n" /\ e.src # e.dst
    [] e.op = "drop" -> s.s[e.dst].k # "n"
    [] e.op = "close" -> s.active /\ ~s.held
    [] OTHER -> TRUE
Step(s, e) ==
  CASE e.op = "new" -> New(s, e.dst)
    [] e.op = "derive" -> Derive(s, e.f, e.src, e.dst)
    [] e.op = "copy" -> Put(s, e.dst, s.s[e.src])
    [] e.op = "drop" -> Put(s, e.dst, Nothing)
    [] e.op = "gc" -> Collect(s)
    [] e.op = "scrub" -> Scrub(s)
    [] e.op = "close" -> [s EXCEPT !.active = FALSE]
    [] e.op = "bulk" -> Bulk(s, e.t, e.n, e.keep)
    [] e.op = "unbulk" -> [s EXCEPT !.bulk.x = 0, !.bulk.d = 0]
E(op, src, dst, f) == [op |-> op, src |-> src, dst |-> dst, f |-> f]
Dst == Slots \union {0}
Events == {E("new", 0, d, "") : d \in Dst} \union {E("derive", a, d, f) : a \in Slots, d \in Dst, f \in Kinds}
          \union {E("copy", a, d, "") : a, d \in Slots} \union {E("drop", 0, d, "") : d \in Slots}
          \union {E(o, 0, 0, "") : o \in {"gc", "scrub", "close"}}
Init == st = InitSt /\ act = E("init", 0, 0, "")
Next == \E e \in Events : Can(st, e) /\ act' = e /\ st' = Step(st, e)
Spec == Init /\ [][Next]_vars
View == st
Dump == PrintT(ToJson([f |-> st, a |-> act', t |-> st']))
ASSUME PrintT(ToJson([init |-> InitSt]))
\* design properties
\* a constant that can be read has its buffer, and there are no disposable ones once the pool is closed
Readable == \A i \in Slots : st.s[i].k = "x" => st.s[i].b \in st.live \union {0}
Closed == ~st.active => (st.live = {} /\ \A i \in Slots : st.s[i].k # "x")
\* collecting and scrubbing leave the values the collector is told about alone, and memory only goes when unused
KeepsValues == [][act'.op \in {"gc", "scrub"} => \A i \in Dict : st'.s[i].v = st.s[i].v /\ (act'.op = "scrub" => st'.s[i].k # "x")]_vars
OnlyCollected == [][st.live \subseteq st'.live \/ act'.op \in {"gc", "scrub"}]_vars
Exact == [][act'.op = "gc" => st'.live = {st'.s[i].b : i \in {j \in Slots : st'.s[j].k = "x"}} \ {0}]_vars
=============================================================================
