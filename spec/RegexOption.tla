------------------------------ MODULE RegexOption ------------------------------
(* Selection of names by a comma-separated option.  Strings are sequences of
   one-character strings.  An option is read as globs ('.' literal, '*' any
   text) unless it contains regular-expression syntax, in which case all of its
   entries are regular expressions (here: literals, escapes, '.', classes, the
   quantifiers * + ? and the anchors ^ $).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, opt, ok
Has(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
IsRegex(s) == Has(s, <<".", "*">>) \/ Has(s, <<"\\", ".">>) \/ \E c \in {"^", "$", "[", "+", "?"} : Has(s, <<c>>)
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN (IF cur = <<>> THEN {} ELSE {cur})
  ELSE IF Head(s) \in {",", " "} THEN (IF cur = <<>> THEN {} ELSE {cur}) \cup Split(Tail(s), <<>>)
  ELSE Split(Tail(s), Append(cur, Head(s)))
Entries(s) == Split(s, <<>>)
\* tokens: a set of characters ("any" for all) and a quantifier
Dot == {"any"}
RECURSIVE Until(_, _)
Until(s, i) == IF s[i] = "]" THEN i ELSE Until(s, i + 1)
RECURSIVE Atoms(_, _, _)
\* i: position; rx: regular expression or glob
Atoms(s, i, rx) ==
  IF i > Len(s) THEN <<>>
  ELSE IF ~rx THEN <<IF s[i] = "*" THEN [set |-> Dot, q |-> "*"] ELSE [set |-> {s[i]}, q |-> "1"]>> \o Atoms(s, i + 1, rx)
  ELSE IF (s[i] = "^" /\ i = 1) \/ (s[i] = "$" /\ i = Len(s)) THEN Atoms(s, i + 1, rx)
  ELSE LET e == IF s[i] = "\\" THEN i + 1 ELSE IF s[i] = "[" THEN Until(s, i) ELSE i   \* last character of the atom
           set == IF s[i] = "\\" THEN {s[i + 1]} ELSE IF s[i] = "[" THEN {s[x] : x \in (i + 1)..(e - 1)} ELSE IF s[i] = "." THEN Dot ELSE {s[i]}
           quant == e < Len(s) /\ s[e + 1] \in {"*", "+", "?"}
       IN <<[set |-> set, q |-> IF quant THEN s[e + 1] ELSE "1"]>> \o Atoms(s, IF quant THEN e + 2 ELSE e + 1, rx)
In(c, set) == set = Dot \/ c \in set
RECURSIVE Match(_, _)
Match(t, n) ==
  IF t = <<>> THEN n = <<>>
  ELSE LET a == Head(t)  one == n # <<>> /\ In(Head(n), a.set) IN
    CASE a.q = "1" -> one /\ Match(Tail(t), Tail(n))
      [] a.q = "?" -> Match(Tail(t), n) \/ (one /\ Match(Tail(t), Tail(n)))
      [] a.q = "+" -> one /\ Match(<<[a EXCEPT !.q = "*"]>> \o Tail(t), Tail(n))
      [] a.q = "*" -> Match(Tail(t), n) \/ (one /\ Match(t, Tail(n)))
ALL == <<"A", "L", "L">>
NONE == <<"N", "O", "N", "E">>
Enabled(o, name) ==
  IF o.s = <<>> THEN ~o.emptyIsNone
  ELSE IF NONE \in Entries(o.s) THEN FALSE
  ELSE IF ALL \in Entries(o.s) THEN TRUE
  ELSE \E e \in Entries(o.s) : Match(Atoms(e, 1, IsRegex(o.s)), name)
Init == h \in 1..Len(Hist) /\ l = 1 /\ opt = [s |-> <<>>, emptyIsNone |-> TRUE] /\ ok = TRUE
Next == /\ ok /\ l <= Len(Hist[h])
        /\ LET e == Hist[h][l] IN
           CASE e.op = "new" -> opt' = [s |-> e.s, emptyIsNone |-> e.empty = 1] /\ ok' = TRUE
             [] e.op = "set" -> opt' = [opt EXCEPT !.s = e.s] /\ ok' = TRUE
             [] e.op = "ask" -> /\ ok' = (\A i \in 1..Len(e.names) : (e.obs.on[i] = 1) = Enabled(opt, e.names[i]))
                                /\ UNCHANGED opt
        /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Next]_<<h, l, opt, ok>>
Accepted == ok
=============================================================================
