------------------------------- MODULE SessCache -------------------------------
(* The cache of compiled-model sessions: `mem` lists what is held in memory from
   least to most recently used, `disk` what the cache folder holds.  A session
   is identified by the version last stored under its key.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vers, Cap
VARIABLES st, act
vars == <<st, act>>
None == 0
InitSt == [mem |-> <<>>, disk |-> [k \in Keys |-> None]]
A(op, k, v, w, ret) == [op |-> op, k |-> k, v |-> v, w |-> w, ret |-> ret]
Held(s) == {s.mem[i].k : i \in 1..Len(s.mem)}
VerOf(s, k) == (CHOOSE x \in {s.mem[i] : i \in 1..Len(s.mem)} : x.k = k).v
Without(m, k) == SelectSeq(m, LAMBDA x : x.k # k)
Touch(m, k, v) == Append(Without(m, k), [k |-> k, v |-> v])
\* room for one more: the least recently used entry goes when full
Room(m) == IF Len(m) >= Cap THEN Tail(m) ELSE m
\* a lookup: the entry in memory, else the one on disk (which comes into memory)
Look(s, k) == IF k \in Held(s) THEN [s EXCEPT !.mem = Touch(@, k, VerOf(s, k))]
              ELSE IF s.disk[k] # None THEN [s EXCEPT !.mem = Append(Room(@), [k |-> k, v |-> s.disk[k]])]
              ELSE s
Found(s, k) == IF k \in Held(s) THEN VerOf(s, k) ELSE s.disk[k]
Put(s, k, v, w) == [mem |-> Touch(s.mem, k, v), disk |-> IF w THEN [s.disk EXCEPT ![k] = v] ELSE s.disk]
Init == st = InitSt /\ act = A("init", "", 0, 0, 0)
Do(a, s) == act' = a /\ st' = s
Next ==
  \/ \E k \in Keys, v \in Vers, w \in {0, 1} : (k \in Held(st) \/ Len(st.mem) < Cap) /\ Do(A("put", k, v, w, 0), Put(st, k, v, w = 1))
  \/ \E k \in Keys, v \in Vers : Do(A("insert", k, v, 1, 0), Put([st EXCEPT !.mem = Room(@)], k, v, TRUE))
  \/ Do(A("victim", IF Len(st.mem) >= Cap THEN st.mem[1].k ELSE "", 0, 0, IF Len(st.mem) >= Cap THEN -1 ELSE Len(st.mem)), [st EXCEPT !.mem = Room(@)])
  \/ \E k \in Keys : Do(A("get", k, Found(st, k), 0, 0), Look(st, k))
  \/ \E k \in Keys : st.disk[k] # None /\ Do(A("again", k, Found(st, k), 1, 0), Put(Look(st, k), k, Found(st, k), TRUE))
  \/ \E k \in Keys : Do(A("remove", k, 0, 0, 0), [st EXCEPT !.mem = Without(@, k)])
  \/ Do(A("clear", "", 0, 0, 0), [st EXCEPT !.mem = <<>>])
  \/ \E k \in Keys : st.disk[k] # None /\ Do(A("rmdisk", k, 0, 0, 0), [st EXCEPT !.disk[k] = None])
  \/ Do(A("restart", "", 0, 0, 0), [st EXCEPT !.mem = <<>>])
Spec == Init /\ [][Next]_vars
View == st
Dump == PrintT(ToJson([f |-> st, a |-> act', t |-> st']))
ASSUME PrintT(ToJson([init |-> InitSt]))
\* design properties
Bounded == Len(st.mem) <= Cap
NoDup == Cardinality(Held(st)) = Len(st.mem)
\* a lookup returns the version stored last for that key and makes it the most recent
Last == [][act'.op = "get" /\ act'.v # None => st'.mem[Len(st'.mem)] = [k |-> act'.k, v |-> act'.v]]_vars
\* what leaves memory by eviction is the least recently used
Lru == [][act'.op \in {"victim", "insert", "get"} =>
           \A x \in Held(st) \ Held(st') : x = st.mem[1].k]_vars
=============================================================================
