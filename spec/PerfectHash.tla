---------------------------- MODULE PerfectHash ----------------------------
(* The category lookup: tables G and V built by the compiler from a dictionary
   of N keys, and the lookup compiled into the runtime.  The hash function is
   arbitrary: h[d][k] is the slot of key k under seed d, d = 0 selects buckets.
   The construction is the one of PerfectHash.cpp (largest bucket first, seeds
   1, 2, ... until all keys of a bucket fall into free slots, single keys into
   the free slots left, encoded as -slot-1).  What is claimed of it: whenever
   it ends, looking every key up gives its own value, so V is a bijection.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, D
Keys == 1..N
Slots == 0..(N - 1)
VARIABLES h, G, V, todo, pc
vars == <<h, G, V, todo, pc>>
Bucket(b) == {k \in Keys : h[0][k] = b}
Init == /\ h \in [0..D -> [Keys -> Slots]]
        /\ G = [s \in Slots |-> 0] /\ V = [s \in Slots |-> -1]
        /\ todo = {b \in Slots : Bucket(b) # {}}
        /\ pc = "build"
Fits(b, d) == LET B == Bucket(b) IN
  /\ \A k \in B : V[h[d][k]] = -1
  /\ Cardinality({h[d][k] : k \in B}) = Cardinality(B)
Largest(b) == b \in todo /\ \A c \in todo : Cardinality(Bucket(c)) <= Cardinality(Bucket(b))
Big == \E b \in Slots :
  /\ Largest(b) /\ Cardinality(Bucket(b)) > 1
  /\ IF \E d \in 1..D : Fits(b, d)
     THEN LET d == CHOOSE d \in 1..D : Fits(b, d) /\ \A c \in 1..(d - 1) : ~Fits(b, c) IN
          /\ G' = [G EXCEPT ![b] = d]
          /\ V' = [s \in Slots |-> IF \E k \in Bucket(b) : h[d][k] = s
                                   THEN CHOOSE k \in Bucket(b) : h[d][k] = s ELSE V[s]]
          /\ todo' = todo \ {b} /\ UNCHANGED <<h, pc>>
     ELSE pc' = "stuck" /\ UNCHANGED <<h, G, V, todo>>
Single == \E b \in Slots, s \in Slots :
  /\ Largest(b) /\ Cardinality(Bucket(b)) = 1
  /\ V[s] = -1
  /\ G' = [G EXCEPT ![b] = -s - 1]
  /\ V' = [V EXCEPT ![s] = CHOOSE k \in Bucket(b) : TRUE]
  /\ todo' = todo \ {b} /\ UNCHANGED <<h, pc>>
Finish == todo = {} /\ pc' = "done" /\ UNCHANGED <<h, G, V, todo>>
Next == pc = "build" /\ (Big \/ Single \/ Finish)
Spec == Init /\ [][Next]_vars
LookupWith(g, v, H(_), k) == LET d == g[H(0)] IN IF d < 0 THEN v[-d - 1] ELSE v[H(d)]
Lookup(k) == LookupWith(G, V, LAMBDA d : h[d][k], k)
Correct == pc = "done" => /\ \A k \in Keys : Lookup(k) = k
                          /\ {V[s] : s \in Slots} = Keys
=============================================================================
