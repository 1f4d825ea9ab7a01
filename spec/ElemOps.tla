------------------------------ MODULE ElemOps ------------------------------
(* Constant-tensor operations with the meaning ONNX gives them.  A constant is
   an element type, a shape and its elements in row-major order; it has no
   representation: dense, splat, strided and lazily transformed constants with
   the same elements are the same constant.  A history is a program of
   operations; every operation appends its results to the list of constants,
   and the constants already there never change.

   The operations themselves are those of TensorSem.                         *)
EXTENDS TensorSem, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st, ok

Results(e) ==
  LET a == IF "a" \in DOMAIN e THEN st[e.a] ELSE <<>>
      b == IF "b" \in DOMAIN e THEN st[e.b] ELSE <<>>
      c == IF "c" \in DOMAIN e THEN st[e.c] ELSE <<>> IN
  CASE e.op = "new" -> <<[ty |-> e.ty, sh |-> e.sh, v |-> NormS(e.v)]>>
    [] e.op = "map" -> LET F(x) == Un(e.f, a.ty, x) IN <<Map(a, e.ty, F)>>
    [] e.op = "comb" -> LET F(idx) == Bin(e.f, a.ty, BAt(a, idx), BAt(b, idx)) IN <<Mk(e.ty, BShape(a.sh, b.sh), F)>>
    [] e.op = "where" -> LET F(idx) == IF BAt(a, idx) # 0 THEN BAt(b, idx) ELSE BAt(c, idx)
                         IN <<Mk(b.ty, BShape(a.sh, BShape(b.sh, c.sh)), F)>>
    [] e.op = "cast" -> LET F(x) == IF IsF(e.ty) THEN CastF(a.ty, e.ty, x, 0) ELSE CastI(a.ty, e.ty, x, 1) IN <<Map(a, e.ty, F)>>
    [] e.op = "casti" -> LET F(x) == CastI(a.ty, e.ty, x, e.round) IN <<Map(a, e.ty, F)>>
    [] e.op = "castf" -> LET F(x) == CastF(a.ty, e.ty, x, e.sat) IN <<Map(a, e.ty, F)>>
    [] e.op = "clip" -> LET F(x) == IF Lt(x, e.lo) THEN e.lo ELSE IF Lt(e.hi, x) THEN e.hi ELSE x IN <<Map(a, a.ty, F)>>
    [] e.op = "tr" -> LET r == Len(a.sh)
                          F(idx) == At(a, [j \in 1..r |-> idx[CHOOSE i \in 1..r : e.perm[i] + 1 = j]])
                      IN <<Mk(a.ty, [i \in 1..r |-> a.sh[e.perm[i] + 1]], F)>>
    [] e.op = "resh" -> <<[a EXCEPT !.sh = e.sh]>>
    [] e.op = "exp" -> LET F(idx) == BAt(a, idx) IN <<Mk(a.ty, e.sh, F)>>
    [] e.op = "split" -> Split(a, e.axis, e.sizes)
    [] e.op = "cat" -> <<Concat([k \in 1..Len(e.ids) |-> st[e.ids[k]]], e.axis)>>
    [] e.op = "slice" -> LET F(idx) == At(a, [i \in 1..Len(a.sh) |-> e.starts[i] + idx[i] * e.steps[i]]) IN <<Mk(a.ty, e.sh, F)>>
    [] e.op = "pad" -> <<Pad(a, e.pads, Norm(e.val))>>
    [] e.op = "gather" -> <<Gather(a, b, e.axis)>>
    [] e.op = "scat" -> <<Scatter(a, b, c)>>
    [] e.op = "red" -> <<Reduce(a, e.axes, e.keep, e.f)>>
    [] e.op = "mm" -> <<MatMul(a, b)>>
    [] e.op = "range" -> <<[ty |-> e.ty, sh |-> <<e.n>>, v |-> [k \in 1..e.n |-> e.start + (k - 1) * e.delta]]>>
    [] e.op = "nz" -> <<NonZero(a)>>
    [] e.op \in {"dense", "disp"} -> <<a>>
    [] OTHER -> <<>>
SameV(views, v) == \A w \in 1..Len(views) : NormS(views[w]) = v
EventOK(e, R) ==
  /\ Len(e.obs.out) = Len(R)
  /\ \A k \in 1..Len(R) : LET o == e.obs.out[k] IN
       o.ty = R[k].ty /\ o.sh = R[k].sh /\ Len(o.views) >= 1 /\ SameV(o.views, R[k].v)
  /\ e.op = "eqt" => LET a == st[e.a] b == st[e.b] s == BShape(a.sh, b.sh) IN
       e.obs.r = B(\A k \in 1..Prod(s) : Eq(BAt(a, Unflat(s, k - 1)), BAt(b, Unflat(s, k - 1))))
  /\ e.op = "alleq" => e.obs.r = B(\A k \in DOMAIN st[e.a].v : Eq(st[e.a].v[k], e.val))
  /\ e.op = "all" => Len(e.obs.all) = Len(st) /\ \A k \in 1..Len(st) : SameV(e.obs.all[k], st[k].v)
Init == h \in 1..Len(Hist) /\ l = 1 /\ st = <<>> /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] R == Results(e) IN st' = st \o R /\ ok' = EventOK(e, R)
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, st, ok>>
Accepted == ok
=============================================================================
