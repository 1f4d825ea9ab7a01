-------------------------------- MODULE CmdWords -------------------------------
(* Compiler command lines: splitting a flag string into words, what a compiler
   run with these words is asked to do, and the names predicted from them.
   Texts are sequences of characters.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Blank == {" ", "\t", "\n", "\r", "\f"}
\* ---- splitting: one character at a time
P0 == [out |-> <<>>, cur |-> <<>>, q |-> "", esc |-> FALSE]
Feed(p, c) ==
  IF p.esc THEN [p EXCEPT !.cur = Append(@, c), !.esc = FALSE]
  ELSE IF c = "\\" THEN [p EXCEPT !.esc = TRUE]
  ELSE IF p.q # "" THEN (IF c = p.q THEN [p EXCEPT !.q = ""] ELSE [p EXCEPT !.cur = Append(@, c)])
  ELSE IF c \in {"\"", "'"} THEN [p EXCEPT !.q = c]
  ELSE IF c \in Blank THEN (IF p.cur = <<>> THEN p ELSE [p EXCEPT !.out = Append(@, p.cur), !.cur = <<>>])
  ELSE [p EXCEPT !.cur = Append(@, c)]
RECURSIVE FeedAll(_, _, _)
FeedAll(p, s, i) == IF i > Len(s) THEN p ELSE FeedAll(Feed(p, s[i]), s, i + 1)
Words(s) == LET p == FeedAll(P0, s, 1) IN IF p.cur = <<>> THEN p.out ELSE Append(p.out, p.cur)
\* ---- texts
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
At(s, c) == {i \in 1..Len(s) : s[i] = c}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
HasDir(s) == At(s, "/") # {}
Name(s) == IF HasDir(s) THEN Drop(s, Max(At(s, "/"))) ELSE s
NoExt(s) == IF At(s, ".") = {} THEN s ELSE SubSeq(s, 1, Max(At(s, ".")) - 1)
Stem(n) == IF At(n, ".") = {} \/ Max(At(n, ".")) = 1 THEN n ELSE NoExt(n)
Under(d, n) == IF d = <<>> THEN n ELSE IF d[Len(d)] = "/" THEN d \o n ELSE d \o <<"/">> \o n
Abs(cwd, s) == IF s = <<>> \/ s[1] = "/" THEN s ELSE Under(cwd, s)
\* ---- what the words ask for: the last of repeated options counts
O == <<"-", "o">>
OEq == <<"-", "o", "=">>
Tag1 == <<"-", "t", "a", "g", "=">>
Tag2 == <<"-", "-", "t", "a", "g", "=">>
Emit == <<"-", "E", "m", "i", "t">>
Emit2 == <<"-", "-", "E", "m", "i", "t">>
IsEmit(w) == Starts(w, Emit) \/ Starts(w, Emit2)
Target(w) == LET t == IF Starts(w, Emit2) THEN Drop(w, 6) ELSE Drop(w, 5) IN
  CASE t = <<"L", "i", "b">> -> "so" [] t = <<"O", "b", "j">> -> "o" [] t = <<"J", "N", "I">> -> "jar" [] OTHER -> "mlir"
IsInput(w) == Ends(w, <<".", "o", "n", "n", "x">>) \/ Ends(w, <<".", "m", "l", "i", "r">>) \/ Ends(w, <<".", "o", "n", "n", "x", "t", "e", "x", "t">>)
A0 == [o |-> <<>>, tag |-> <<>>, target |-> "so", pos |-> <<>>]
RECURSIVE Ask(_, _)
Ask(a, ws) ==
  IF ws = <<>> THEN a
  ELSE LET w == ws[1] r == Tail(ws) IN
    IF w = O /\ r # <<>> THEN Ask([a EXCEPT !.o = r[1]], Tail(r))
    ELSE IF Starts(w, OEq) THEN Ask([a EXCEPT !.o = Drop(w, 3)], r)
    ELSE IF Starts(w, Tag1) THEN Ask([a EXCEPT !.tag = Drop(w, 5)], r)
    ELSE IF Starts(w, Tag2) THEN Ask([a EXCEPT !.tag = Drop(w, 6)], r)
    ELSE IF IsEmit(w) THEN Ask([a EXCEPT !.target = Target(w)], r)
    ELSE IF w # <<>> /\ w[1] # "-" THEN Ask([a EXCEPT !.pos = Append(@, w)], r)
    ELSE Ask(a, r)
Suffix(t) == CASE t = "so" -> <<".", "s", "o">> [] t = "o" -> <<".", "o">> [] t = "jar" -> <<".", "j", "a", "r">> [] OTHER -> <<".", "o", "n", "n", "x", ".", "m", "l", "i", "r">>
Inputs(a) == SelectSeq(a.pos, IsInput)
InputOf(model, a) == IF model # <<>> THEN model ELSE IF Inputs(a) = <<>> THEN <<>> ELSE Inputs(a)[1]
\* the file a compiler writes when run with these words on this input
Written(ws, input) == LET a == Ask(A0, ws) IN (IF a.o # <<>> THEN a.o ELSE NoExt(input)) \o Suffix(a.target)
\* the file wanted: an output directory applies to a name without one
WantedBase(ws, input, dir) ==
  LET a == Ask(A0, ws) IN
  IF a.o # <<>> THEN (IF dir # <<>> /\ ~HasDir(a.o) THEN Under(dir, a.o) ELSE a.o)
              ELSE IF dir # <<>> THEN Under(dir, Stem(Name(input))) ELSE NoExt(input)
Wanted(ws, input, dir) == WantedBase(ws, input, dir) \o Suffix(Ask(A0, ws).target)
\* ---- normal form of an absolute path
Join(d, c) == d \o <<"/">> \o c
Push(ps, c) == IF c = <<>> \/ c = <<".">> THEN ps ELSE IF c = <<".", ".">> THEN (IF ps = <<>> THEN ps ELSE SubSeq(ps, 1, Len(ps) - 1)) ELSE Append(ps, c)
RECURSIVE Parts(_, _, _)
Parts(s, ps, c) == IF s = <<>> THEN Push(ps, c) ELSE IF s[1] = "/" THEN Parts(Tail(s), Push(ps, c), <<>>) ELSE Parts(Tail(s), ps, Append(c, s[1]))
RECURSIVE Glue(_)
Glue(ps) == IF ps = <<>> THEN <<>> ELSE <<"/">> \o ps[1] \o Glue(Tail(ps))
Norm(s) == Glue(Parts(s, <<>>, <<>>))
=============================================================================
