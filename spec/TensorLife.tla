---------------------------- MODULE TensorLife ----------------------------
(* Lifecycle of OMTensor and OMTensorList objects and of the data buffers  *)
(* they reference.  One action per public API call.  The state is the part *)
(* of the world the API exposes: which buffers are allocated, what each    *)
(* tensor points to and whether it owns it, what each list holds.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NB, NT, NL
VARIABLES st, act

Bufs == 1..NB
Tens == 1..NT
Lsts == 1..NL
NoTen == [k |-> 0, b |-> 0, own |-> 0, al |-> 0]
NoLst == [k |-> 0, it |-> <<>>]
InitSt == [buf |-> [b \in Bufs |-> "none"],
           ten |-> [t \in Tens |-> NoTen],
           lst |-> [l \in Lsts |-> NoLst]]
Init == st = InitSt /\ act = [op |-> "init"]

Alive(t) == st.ten[t].k = 1
Referenced(b) == \E t \in Tens : Alive(t) /\ st.ten[t].b = b
Owners(b) == {t \in Tens : Alive(t) /\ st.ten[t].b = b /\ st.ten[t].own = 1}
Usable(b) == IF b = 0 THEN TRUE ELSE st.buf[b] = "live"
\* ownership may be taken by t when nobody else has it
MayOwn(t, b, o) == (o = 1 /\ b # 0) => Owners(b) \subseteq {t}

\* releasing what tensor t owns, as a function of the buffer map
Release(buf, t) == IF st.ten[t].own = 1 /\ st.ten[t].b # 0
                   THEN [buf EXCEPT ![st.ten[t].b] = "gone"] ELSE buf

AllocBuf(b) ==
  /\ st.buf[b] # "live" /\ ~Referenced(b)
  /\ st' = [st EXCEPT !.buf[b] = "live"]
  /\ act' = [op |-> "AllocBuf", b |-> b]
\* the caller frees a buffer that no tensor owns
FreeBuf(b) ==
  /\ st.buf[b] = "live" /\ Owners(b) = {}
  /\ st' = [st EXCEPT !.buf[b] = "gone"]
  /\ act' = [op |-> "FreeBuf", b |-> b]
Create(t, b) ==
  /\ ~Alive(t) /\ Usable(b)
  /\ st' = [st EXCEPT !.ten[t] = [k |-> 1, b |-> b, own |-> 0, al |-> 0]]
  /\ act' = [op |-> "Create", t |-> t, b |-> b]
CreateOwn(t, b, o) ==
  /\ ~Alive(t) /\ Usable(b) /\ MayOwn(t, b, o)
  /\ st' = [st EXCEPT !.ten[t] = [k |-> 1, b |-> b, own |-> o, al |-> 0]]
  /\ act' = [op |-> "CreateOwn", t |-> t, b |-> b, o |-> o]
CreateEmpty(t, b) ==
  /\ ~Alive(t) /\ st.buf[b] # "live" /\ ~Referenced(b)
  /\ st' = [st EXCEPT !.ten[t] = [k |-> 1, b |-> b, own |-> 1, al |-> 0],
                      !.buf[b] = "live"]
  /\ act' = [op |-> "CreateEmpty", t |-> t, b |-> b]
\* an undefined element type has no storage size: nothing is created
CreateEmptyBad(t) ==
  /\ ~Alive(t) /\ UNCHANGED st
  /\ act' = [op |-> "CreateEmptyBad", t |-> t]
CreateUntyped(t) ==
  /\ ~Alive(t)
  /\ st' = [st EXCEPT !.ten[t] = [k |-> 1, b |-> 0, own |-> 0, al |-> 0]]
  /\ act' = [op |-> "CreateUntyped", t |-> t]
SetData(t, o, b, al) ==
  /\ Alive(t) /\ Usable(b) /\ MayOwn(t, b, o)
  /\ (b = 0 => al = 0)
  /\ ~(st.ten[t].own = 1 /\ b # 0 /\ st.ten[t].b = b)
  /\ st' = [st EXCEPT !.buf = Release(st.buf, t),
                      !.ten[t] = [k |-> 1, b |-> b, own |-> o, al |-> al]]
  /\ act' = [op |-> "SetData", t |-> t, o |-> o, b |-> b, al |-> al]
SetOwning(t, o) ==
  /\ Alive(t) /\ (o = 1 => Usable(st.ten[t].b)) /\ MayOwn(t, st.ten[t].b, o)
  /\ st' = [st EXCEPT !.ten[t].own = o]
  /\ act' = [op |-> "SetOwning", t |-> t, o |-> o]
\* a list keeps naming a destroyed tensor; the element is then dead (0)
Drop(it, S) == [i \in 1..Len(it) |-> IF it[i] \in S THEN 0 ELSE it[i]]
DropAll(lst, S) == [l \in Lsts |-> [k |-> lst[l].k, it |-> Drop(lst[l].it, S)]]
Destroy(t) ==
  /\ Alive(t)
  /\ st' = [buf |-> Release(st.buf, t), ten |-> [st.ten EXCEPT ![t] = NoTen],
            lst |-> DropAll(st.lst, {t})]
  /\ act' = [op |-> "Destroy", t |-> t]
ListCreate(l, its) ==
  /\ st.lst[l].k = 0
  /\ \A i \in 1..Len(its) : Alive(its[i])
  /\ st' = [st EXCEPT !.lst[l] = [k |-> 1, it |-> its]]
  /\ act' = [op |-> "ListCreate", l |-> l, it |-> its]
ListDestroy(l) ==
  LET its == st.lst[l].it
      S == {its[i] : i \in 1..Len(its)} IN
  /\ st.lst[l].k = 1 /\ 0 \notin S /\ Cardinality(S) = Len(its)
  /\ st' = [buf |-> [b \in Bufs |-> IF Owners(b) \cap S # {} THEN "gone" ELSE st.buf[b]],
            ten |-> [t \in Tens |-> IF t \in S THEN NoTen ELSE st.ten[t]],
            lst |-> [DropAll(st.lst, S) EXCEPT ![l] = NoLst]]
  /\ act' = [op |-> "ListDestroy", l |-> l]
ListDestroyShallow(l) ==
  /\ st.lst[l].k = 1
  /\ st' = [st EXCEPT !.lst[l] = NoLst]
  /\ act' = [op |-> "ListDestroyShallow", l |-> l]

Seqs == {<<>>} \cup {<<t>> : t \in Tens} \cup
        {<<p[1], p[2]>> : p \in {q \in Tens \X Tens : q[1] # q[2]}}
Next ==
  \/ \E b \in Bufs : AllocBuf(b) \/ FreeBuf(b)
  \/ \E t \in Tens, b \in 0..NB : Create(t, b)
  \/ \E t \in Tens, b \in 0..NB, o \in 0..1 : CreateOwn(t, b, o)
  \/ \E t \in Tens, b \in Bufs : CreateEmpty(t, b)
  \/ \E t \in Tens : CreateUntyped(t) \/ Destroy(t) \/ CreateEmptyBad(t)
  \/ \E t \in Tens, o \in 0..1, b \in 0..NB, al \in 0..1 : SetData(t, o, b, al)
  \/ \E t \in Tens, o \in 0..1 : SetOwning(t, o)
  \/ \E l \in Lsts, s \in Seqs : ListCreate(l, s)
  \/ \E l \in Lsts : ListDestroy(l) \/ ListDestroyShallow(l)
Spec == Init /\ [][Next]_<<st, act>>

View == st
\* design properties
OwnedIsLive == \A t \in Tens : Alive(t) /\ st.ten[t].own = 1 /\ st.ten[t].b # 0
                  => st.buf[st.ten[t].b] = "live"
OneOwner == \A b \in Bufs : Cardinality(Owners(b)) <= 1
\* a buffer leaves "live" only through its owner, or the caller when unowned
ReleasedByOwner == [][\A b \in Bufs : (st.buf[b] = "live" /\ st'.buf[b] # "live")
     => \/ Owners(b) = {} /\ act'.op = "FreeBuf"
        \/ Owners(b) # {} /\ act'.op \in {"Destroy", "SetData", "ListDestroy"}]_<<st, act>>
Dump == PrintT(ToJson([f |-> st, a |-> act', t |-> st']))
ASSUME PrintT(ToJson([init |-> InitSt]))
============================================================================
