------------------------------ MODULE ExtConst ------------------------------
(* External constants of compiled models: a constants file at the given path
   ("cwd") or in the configured directory ("dir"), the setting of the
   directory, and per model the loaded buffer (where it came from) and the
   constants resolved against it.  File kinds: none, short (one byte less than
   stated, or empty), good, big (longer), folder (not a regular file).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Models, Kinds, Paths, Faults, Offsets
Locs == {"cwd", "dir"}
VARIABLES st, act
vars == <<st, act>>
NoBuf == [loc |-> "-", kind |-> "-"]
InitSt == [file |-> [p \in Locs |-> "none"], path |-> "unset",
           buf |-> [m \in Models |-> NoBuf], res |-> [m \in Models |-> {}]]
Init == st = InitSt /\ act = [op |-> "init"]
Usable(k) == k \in {"good", "big"}
LocOf(p) == IF p = "unset" THEN "cwd" ELSE IF p = "dir" THEN "dir" ELSE "nowhere"
KindAt(p) == IF LocOf(p) \in Locs THEN st.file[LocOf(p)] ELSE "none"
Loaded(m) == st.buf[m] # NoBuf
PutFile(p, k) == /\ st.file[p] # k
                 /\ st' = [st EXCEPT !.file[p] = k]
                 /\ act' = [op |-> "file", loc |-> p, kind |-> k]
SetPath(p) == /\ st.path # p /\ st' = [st EXCEPT !.path = p]
              /\ act' = [op |-> "path", path |-> p]
\* size: "ok", "zero", "neg"; le: written for this machine; fault: none/open/map
Load(m, size, le, fault) ==
  LET can == size = "ok" /\ (Loaded(m) \/ (le /\ fault = "none" /\ Usable(KindAt(st.path))))
      new == can /\ ~Loaded(m) IN
  /\ st' = IF new THEN [st EXCEPT !.buf[m] = [loc |-> LocOf(st.path), kind |-> KindAt(st.path)]] ELSE st
  /\ act' = [op |-> "load", m |-> m, size |-> size, le |-> le, fault |-> fault, ret |-> can]
Resolve(m, o) == /\ Loaded(m)
                 /\ st' = [st EXCEPT !.res[m] = @ \cup {o}]
                 /\ act' = [op |-> "resolve", m |-> m, off |-> o]
Unload(m) == /\ st' = [st EXCEPT !.buf[m] = NoBuf, !.res[m] = {}]
             /\ act' = [op |-> "unload", m |-> m, ret |-> Loaded(m)]
NullCall(w) == st' = st /\ act' = [op |-> "null", which |-> w]
Next == \/ \E p \in Locs, k \in Kinds : PutFile(p, k)
        \/ \E p \in Paths : SetPath(p)
        \/ \E m \in Models, f \in Faults, le \in BOOLEAN : Load(m, "ok", le, f)
        \/ \E m \in Models, s \in {"zero", "neg"} : Load(m, s, TRUE, "none")
        \/ \E m \in Models, o \in Offsets : Resolve(m, o)
        \/ \E m \in Models : Unload(m)
        \/ \E w \in {"load", "unload", "out", "base"} : NullCall(w)
Spec == Init /\ [][Next]_vars
View == st
Dump == PrintT(ToJson([f |-> st, a |-> act', t |-> st']))
ASSUME PrintT(ToJson([init |-> InitSt]))
\* All or nothing: a buffer is a usable file's content, constants need a buffer
AllOrNothing == \A m \in Models : /\ st.buf[m] # NoBuf => Usable(st.buf[m].kind)
                                  /\ st.buf[m] = NoBuf => st.res[m] = {}
\* Loading again changes nothing
OnceOnly == [][\A m \in Models : (act'.op = "load" /\ Loaded(m)) => st'.buf[m] = st.buf[m]]_vars
\* A failed load leaves the model unloaded
FailClean == [][(act'.op = "load" /\ ~act'.ret) => st' = st]_vars
=============================================================================
