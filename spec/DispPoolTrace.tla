----------------------------- MODULE DispPoolTrace -----------------------------
(* Decides recorded histories of the pool, with constants created concurrently. *)
EXTENDS DispPool, IOUtils, SequencesExt
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, ok
\* Dict and Others are 1..Cardinality(Slots)
Seen(s, o) ==
  /\ \A i \in Slots : o.slots[i].k = s.s[i].k /\ o.slots[i].v = s.s[i].v
  /\ {o.live[j] : j \in 1..Len(o.live)} = s.live
  /\ o.twice = 0                                      \* buffers released more than once
  /\ o.act = (IF s.active THEN 1 ELSE 0)
  /\ o.bulk.live = s.bulk.live /\ o.bulk.x = s.bulk.x /\ o.bulk.d = s.bulk.d /\ o.bulk.bad = 0
TInit == h \in 1..Len(Hist) /\ l = 1 /\ ok = TRUE /\ st = InitSt /\ act = E("init", 0, 0, "")
TNext == /\ ok /\ l <= Len(Hist[h])
         /\ LET e == Hist[h][l]
            IN IF Can(st, e) THEN st' = Step(st, e) /\ ok' = Seen(Step(st, e), e.obs)
               ELSE st' = st /\ ok' = FALSE
         /\ l' = l + 1 /\ h' = h /\ act' = act
TSpec == TInit /\ [][TNext]_<<h, l, ok, st, act>>
Accepted == ok
=============================================================================
