-------------------------- MODULE PerfectHashTrace --------------------------
(* Recorded: the tables the compiler built for n keys (key i has value
   vals[i]) and what the runtime lookup answered for every key.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
Range(s) == {s[i] : i \in 1..Len(s)}
TablesOK(n, vals, G, V) ==
  /\ Len(G) = n /\ Len(V) = n
  /\ Range(V) = Range(vals)                    \* n distinct values, n slots
  /\ \A i \in 1..n : G[i] < 0 => -G[i] <= n
EventOK(e) ==
  IF e.obs.hang = 1
  THEN (* seeds cannot separate keys that agree modulo a power of two dividing
          the number of slots; no tables are built for such key sets *)
       e.n % 2 = 0
  ELSE /\ Cardinality(Range(e.vals)) = e.n
       /\ TablesOK(e.n, e.vals, e.obs.G, e.obs.V)
       /\ e.obs.look = e.vals
       /\ e.obs.again = e.vals
Init == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h]) /\ ok' = EventOK(Hist[h][l]) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, ok>>
Accepted == ok
=============================================================================
