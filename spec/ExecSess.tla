------------------------------- MODULE ExecSess -------------------------------
(* Execution sessions over model libraries.  A library is what its file is: an
   identity, whether it can be loaded, the symbols it defines and the entry
   points it lists for each tag.  A session is absent, raw (constructed without
   a model) or ready, with the library it keeps loaded, the suffix its symbols
   are looked up with and the entry point selected last.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerC(c) == IF \E i \in 1..26 : Upper[i] = c THEN Lower[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))
LowerS(cs) == [i \in 1..Len(cs) |-> LowerC(cs[i])]
Range(s) == {s[i] : i \in 1..Len(s)}
\* the file name up to its last dot (a leading dot belongs to the name)
Dots(f) == {i \in 2..Len(f) : f[i] = "."}
Stem(f) == IF Dots(f) = {} THEN f ELSE SubSeq(f, 1, (CHOOSE i \in Dots(f) : \A j \in Dots(f) : j <= i) - 1)
FileOf(p) == LET S == {i \in 1..Len(p) : p[i] = "/"} IN IF S = {} THEN p ELSE SubSeq(p, 1 + CHOOSE i \in S : \A j \in S : j <= i, Len(p))
HasDir(p) == "/" \in Range(p)
DirOf(p) == SubSeq(p, 1, (CHOOSE i \in {j \in 1..Len(p) : p[j] = "/"} : \A j \in i+1..Len(p) : p[j] # "/") - 1)
Suffix(e) == LET t == IF e.tag = <<>> THEN LowerS(Stem(FileOf(e.path))) ELSE e.tag
             IN IF LowerS(t) = <<"n","o","n","e">> THEN "" ELSE "_" \o Join(t)

Unset == "<unset>"
Absent == [s |-> "absent"]
Raw == [s |-> "raw"]
St0 == [sess |-> <<Absent, Absent>>, env |-> Unset]
Ready(x) == x.s = "ready"
Loaded(s) == {s.sess[i].lib.id : i \in {j \in 1..2 : Ready(s.sess[j])}}
Syms(lib) == Range(lib.syms)
CanLoad(e) == /\ e.lib.elf
              /\ {"omQueryEntryPoints" \o Suffix(e), "omInputSignature" \o Suffix(e), "omOutputSignature" \o Suffix(e)} \subseteq Syms(e.lib)
              /\ (e.deflt => "run_main_graph" \o Suffix(e) \in Syms(e.lib))
New(e) == [s |-> "ready", lib |-> e.lib, low |-> Suffix(e), path |-> Join(e.path), entry |-> IF e.deflt THEN "run_main_graph" \o Suffix(e) ELSE ""]
Step(s, e) ==
  CASE e.op = "env" -> [s EXCEPT !.env = e.val]
    [] e.op = "sigs" -> s
    [] e.op = "raw" -> [s EXCEPT !.sess[e.k] = Raw]
    [] e.op = "new" -> IF CanLoad(e) THEN [s EXCEPT !.sess[e.k] = New(e)] ELSE s
    [] e.op = "load" -> IF ~Ready(s.sess[e.k]) /\ CanLoad(e) THEN [s EXCEPT !.sess[e.k] = New(e)] ELSE s
    [] e.op = "end" -> [s EXCEPT !.sess[e.k] = Absent]
    [] e.op = "set" -> IF Ready(s.sess[e.k]) /\ e.name \in Syms(s.sess[e.k].lib) THEN [s EXCEPT !.sess[e.k].entry = e.name] ELSE s
    [] OTHER -> s

\* What a library sees of a call that (un)loads it.
ConstPath(s, e) == IF s.env # Unset THEN s.env ELSE IF HasDir(e.path) THEN Join(DirOf(e.path)) ELSE Unset
Loads(s, e) == IF e.op \in {"new", "load"} /\ ~Ready(s.sess[e.k]) /\ e.lib.elf /\ e.lib.id \notin Loaded(s)
               THEN <<[lib |-> e.lib.id, path |-> ConstPath(s, e)]>> ELSE <<>>
Sig(io, x) == "[ { \"type\" : \"i64\" , \"dims\" : [1 , 3] , \"name\" : \"" \o io \o "/" \o x.lib.id \o x.low \o "/" \o x.entry \o "\" } ]"
Err(o) == o.r = "error"                      \* an ExecutionSessionException
Val(o, v) == o.r = "ok" /\ o.v = v
NoRun(o) == o.ran = <<>>
Expect(s, e, o) ==
  LET x == s.sess[e.k] IN
  CASE e.op = "raw" -> o.r = "ok" /\ NoRun(o)
    [] e.op = "new" -> (o.r = (IF CanLoad(e) THEN "ok" ELSE "error")) /\ NoRun(o)
    [] e.op = "load" -> (o.r = (IF ~Ready(x) /\ CanLoad(e) THEN "ok" ELSE "error")) /\ NoRun(o)
    [] e.op = "end" -> o.r = "ok" /\ NoRun(o)
    [] e.op = "set" -> (o.r = (IF Ready(x) /\ e.name \in Syms(x.lib) THEN "ok" ELSE "error")) /\ NoRun(o)
    [] e.op = "query" -> IF Ready(x) THEN Val(o, x.lib.entries[x.low]) /\ o.n = Len(x.lib.entries[x.low]) ELSE Err(o)
    [] e.op = "insig" -> IF Ready(x) /\ x.entry # "" THEN Val(o, Sig("in", x)) ELSE Err(o)
    [] e.op = "outsig" -> IF Ready(x) /\ x.entry # "" THEN Val(o, Sig("out", x)) ELSE Err(o)
    [] e.op = "info" -> IF Ready(x) THEN Val(o, IF "omCompilationInfo" \o x.low \in Syms(x.lib) THEN "{ \"info\" : \"" \o x.lib.id \o x.low \o "\" }" ELSE "{}") ELSE Err(o)
    [] e.op = "print" -> IF Ready(x) THEN o.r = "ok" /\ o.prints = (IF "omInstrumentPrint" \in Syms(x.lib) THEN <<x.lib.id>> ELSE <<>>) ELSE Err(o)
    [] e.op = "path" -> IF Ready(x) THEN Val(o, x.path) ELSE TRUE
    [] e.op = "fill" -> IF Ready(x) /\ x.entry # "" THEN Val(o, <<"i64", 1, 3>>) /\ o.again = 1 ELSE Err(o)
    [] e.op = "run" ->
         IF Ready(x) /\ x.entry # ""
         THEN /\ o.ran = <<[lib |-> x.lib.id, entry |-> x.entry, ins |-> e.ins]>>
              /\ CASE e.mode = "ok" -> /\ Val(o, [i \in 1..e.n |-> <<i, Len(e.ins), e.stamp>>])
                                       /\ o.prints = (IF "omInstrumentPrint" \in Syms(x.lib) THEN <<x.lib.id>> ELSE <<>>)
                   [] e.mode = "null" -> Err(o) /\ o.named = 1
                   [] e.mode = "crash" -> Err(o) /\ o.named = 1
              /\ o.live = 0 /\ o.ins = 1
         ELSE Err(o) /\ NoRun(o) /\ o.live = 0 /\ o.ins = 1
    [] OTHER -> o.r = "ok"
OK(s, e) ==
  IF e.op \in {"env", "sigs"} THEN TRUE
  ELSE LET o == e.obs
           s2 == Step(s, e)
       IN /\ Expect(s, e, o)
          /\ o.env = s.env                                  \* the environment is back
          /\ o.sig = 1                                      \* and the signal handlers and mask
          /\ Range(o.loaded) = Loaded(s2) /\ Len(o.loaded) = Cardinality(Loaded(s2))
          /\ o.ctor = Loads(s, e)
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = St0 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN ok' = OK(st, e) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
