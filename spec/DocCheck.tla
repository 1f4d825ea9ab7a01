------------------------------- MODULE DocCheck -------------------------------
(* What it means for a document to quote faithfully, and the line-by-line
   scanner that decides it.  Lines are records; k is the kind: "text" (c is its
   content), "blank", "fence" (c its text) and "mark" (a marker for the block
   that follows; cfg tells whether its configuration is usable, ref the quoted
   file, sd/sr the declared lines to skip of document and reference).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Max2(a, b) == IF a > b THEN a ELSE b
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, Max2(n, 0) + 1, Len(s))

\* ---------------------------------------------------------- declarative
\* index of the first non-blank line from i on, or 0
NonBlank(doc, i) == LET S == {j \in i..Len(doc) : doc[j].k # "blank"} IN
  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : j <= x
Quoted(doc, first, ref) == \* the lines from `first` on are the reference and then a fence
  /\ first + Len(ref) <= Len(doc)
  /\ \A x \in 1..Len(ref) : doc[first + x - 1].c = ref[x]
  /\ doc[first + Len(ref)].k = "fence"
RECURSIVE Faithful(_, _, _)
Faithful(doc, i, files) ==
  IF i > Len(doc) THEN TRUE
  ELSE IF doc[i].k # "mark" THEN Faithful(doc, i + 1, files)
  ELSE LET m == doc[i]  j == NonBlank(doc, i + 1) IN
    IF m.cfg # "ok" \/ m.ref \notin DOMAIN files \/ j = 0 THEN FALSE
    ELSE LET ref == Drop(files[m.ref], m.sr)  first == j + 1 + Max2(m.sd, 0) IN
      /\ doc[j].k = "fence"
      /\ Quoted(doc, first, ref)
      /\ Faithful(doc, first + Len(ref) + 1, files)

\* ---------------------------------------------------------- the scanner
\* mode, and what is left to expect
Start == [m |-> "out", skip |-> 0, rest |-> <<>>]
Bad == [m |-> "bad", skip |-> 0, rest |-> <<>>]
Scan(s, ln, files) ==
  CASE s.m = "bad" -> s
    [] s.m = "out" -> IF ln.k # "mark" THEN s
                      ELSE IF ln.cfg # "ok" \/ ln.ref \notin DOMAIN files THEN Bad
                      ELSE [m |-> "open", skip |-> Max2(ln.sd, 0), rest |-> Drop(files[ln.ref], ln.sr)]
    [] s.m = "open" -> IF ln.k = "blank" THEN s ELSE IF ln.k = "fence" THEN [s EXCEPT !.m = "in"] ELSE Bad
    [] s.m = "in" -> IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
                     ELSE IF s.rest = <<>> THEN (IF ln.k = "fence" THEN Start ELSE Bad)
                     ELSE IF ln.c = Head(s.rest) THEN [s EXCEPT !.rest = Tail(@)] ELSE Bad

\* ---------------------------------------------------------- exhaustive small documents
CONSTANT N
T(c) == [k |-> "text", c |-> c]
Fence == [k |-> "fence", c |-> "```"]
Blank == [k |-> "blank", c |-> ""]
Files == [f |-> <<"A">>, g |-> <<"A", "B">>, e |-> <<>>, w |-> <<"A", "">>]
Mk(ref, sd, sr) == [k |-> "mark", c |-> ref, cfg |-> "ok", ref |-> ref, sd |-> sd, sr |-> sr]
Lines == {T("A"), T("B"), Fence, Blank, Mk("f", 0, 0), Mk("g", 0, 1), Mk("w", 1, 0), Mk("nofile", 0, 0)}
VARIABLES doc, st
vars == <<doc, st>>
Init == doc = <<>> /\ st = Start
Next == Len(doc) < N /\ \E ln \in Lines : doc' = Append(doc, ln) /\ st' = Scan(st, ln, Files)
Spec == Init /\ [][Next]_vars
View == doc
Agree == (st.m = "out") = Faithful(doc, 1, Files)
\* a document that has become unfaithful stays so, and text outside blocks changes nothing
Sticky == [][st.m = "bad" => st'.m = "bad"]_vars
DumpDoc == (Len(doc) >= N - 1) => PrintT(ToJson([d |-> doc, ok |-> (st.m = "out")]))
=============================================================================
