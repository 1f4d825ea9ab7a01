------------------------------ MODULE RandomGen ------------------------------
(* The random generators as oracles: a generator is an unknown function from
   (kind, type, seed) to a standard sequence; every call with that seed draws a
   prefix of it, mapped affinely.  The state is what has been learnt of the
   standard sequences so far; a call that contradicts it is rejected.
   Values are identified by `id` (bit pattern) where equality is exact and by
   `fx`, fixed point with 1/Unit, for arithmetic.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
Unit == 65536
VARIABLES h, l, known, std, ok
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Agree(s, t) == \A i \in 1..Min2(Len(s), Len(t)) : s[i] = t[i]
\* same parameters and seed: same values, element by element
Same(e) == LET K == {x \in known : x.key = e.key} IN \A x \in K : Agree(x.ids, e.obs.ids)
\* the affine image of the standard sequence of the same seed, when known
Image(e) == LET K == {x \in std : x.skey = e.skey} IN
  \A x \in K : \A i \in 1..Min2(Len(x.fx), Len(e.obs.fx)) :
     Abs(e.obs.fx[i] - (e.pa * Unit + x.fx[i] * e.pb) \div e.pd) <= e.tol
\* scaling by a power of two loses nothing: same mantissas, shifted exponents
Exact(e) == ~e.pow2 \/ \A x \in {x \in std : x.skey = e.skey} :
     \A i \in 1..Min2(Len(x.me), Len(e.obs.me)) :
        /\ e.obs.me[i][1] = x.me[i][1] /\ e.obs.me[i][2] = x.me[i][2]
        /\ e.obs.me[i][3] = (IF x.me[i][1] = 0 THEN 0 ELSE x.me[i][3] + e.shift)
Sum(s) == LET RECURSIVE S(_, _) S(i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i]
              ELSE LET m == (i + j) \div 2 IN S(i, m) + S(m + 1, j) IN S(1, Len(s))
\* a large sample has about the mean and spread of the distribution
Plausible(e) == ~e.stats \/
  /\ Abs(e.obs.mean - e.wmean) <= 3277       \* 0.05
  /\ Abs(e.obs.var - e.wvar) <= 6554         \* 0.1
Gen(e) ==
  IF e.dt \notin {1, 11} THEN e.obs.ret = 0 /\ e.obs.untouched = 1 /\ e.obs.guard = 1
  ELSE /\ e.obs.ret = 1 /\ e.obs.guard = 1
       /\ Len(e.obs.ids) = e.n
       /\ e.kind = "uniform" => e.obs.inside = 1
       /\ Same(e) /\ Image(e) /\ Exact(e) /\ Plausible(e)
Init == h \in 1..Len(Hist) /\ l = 1 /\ known = {} /\ std = {} /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN
           IF e.op = "burn" THEN ok' = TRUE /\ UNCHANGED <<known, std>>
           ELSE /\ ok' = Gen(e)
                /\ known' = known \cup {[key |-> e.key, ids |-> e.obs.ids]}
                /\ std' = IF e.std /\ e.dt \in {1, 11} THEN std \cup {[skey |-> e.skey, fx |-> e.obs.fx, me |-> e.obs.me]} ELSE std
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, known, std, ok>>
Accepted == ok
=============================================================================
