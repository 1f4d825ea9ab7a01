------------------------------ MODULE OnnxRun ------------------------------
(* A model is a history: its inputs and constants, its nodes in order, and at
   the end what compiled forms of it did ("obs").  The state is the list of
   tensors computed so far; each node appends its results (OnnxOps).

   A compiled form observes "runs": the outputs of one execution, "types": the
   types the compiler gave the outputs, "consts": the outputs it computed at
   compile time (where it did).  Whatever the form - static or dynamic shapes,
   constants or inputs, any optimisation level - the outputs are those of the
   model, the types admit them, and the constants equal them.                 *)
EXTENDS OnnxOps, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok

Near(w, x, er) == /\ w < 1000000000 /\ w > -1000000000 /\ x < 1000000000 /\ x > -1000000000
              /\ Abs(w - x) <= er + 3 + Abs(x) \div 300
SameEl(r, o, k) == IF "ap" \in DOMAIN r THEN Near(o.w[k], r.v[k], IF "er" \in DOMAIN r THEN r.er ELSE 0) ELSE o.v[k] = Norm(r.v[k])
SameTensor(r, o) == /\ o.ty = r.ty
                    /\ o.sh = r.sh
                    /\ Len(o.v) = Prod(r.sh)
                    /\ \A k \in 1..Len(o.v) : SameEl(r, o, k)
Admits(t, r) == /\ t.ty = r.ty
                /\ t.ranked = 1 => /\ Len(t.sh) = Len(r.sh)
                                   /\ \A i \in 1..Len(r.sh) : t.sh[i] = -1 \/ t.sh[i] = r.sh[i]
Known(t) == t.ranked = 1 /\ \A i \in 1..Len(t.sh) : t.sh[i] # -1
ObsOK(e) ==
  LET n == Len(e.outs) R(k) == st[e.outs[k]] IN
  /\ \A q \in 1..Len(e.runs) : /\ Len(e.runs[q].out) = n
                               /\ \A k \in 1..n : SameTensor(R(k), e.runs[q].out[k])
                               /\ e.runs[q].inputs = 1                     \* the caller's tensors are as before
                               /\ e.runs[q].left = 0                       \* and nothing is left in memory
  /\ \A q \in 1..Len(e.types) : /\ Len(e.types[q].t) = n
                                /\ \A k \in 1..n : Admits(e.types[q].t[k], R(k))
                                /\ e.types[q].known = 1 => \A k \in 1..n : Known(e.types[q].t[k])
  /\ \A q \in 1..Len(e.consts) : \A k \in 1..n : e.consts[q].out[k].ty # "?" => SameTensor(R(k), e.consts[q].out[k])
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = <<>> /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN
           IF e.op = "obs" THEN st' = st /\ ok' = ObsOK(e)
           ELSE st' = st \o Outs(st, e) /\ ok' = TRUE
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
