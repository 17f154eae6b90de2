------------------------------ MODULE GraphRef -----------------------------
(* Graph references: graph, graph@branch, graph@branch#version.            *)
(* Classes of characters: n for the characters of names, and the marks.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
VARIABLE text
Chars == {"n", "@", "#", "/"}
FirstAt(s, m) == IF \E i \in 1..Len(s) : s[i] = m THEN CHOOSE i \in 1..Len(s) : s[i] = m /\ \A j \in 1..(i - 1) : s[j] # m ELSE 0
Read(s) ==
  LET a == FirstAt(s, "@")
      slug == IF a = 0 THEN s ELSE SubSeq(s, 1, a - 1)
      rest == IF a = 0 THEN <<>> ELSE SubSeq(s, a + 1, Len(s))
      h == FirstAt(rest, "#")
      branch == IF h = 0 THEN rest ELSE SubSeq(rest, 1, h - 1)
      version == IF h = 0 THEN <<>> ELSE SubSeq(rest, h + 1, Len(rest)) IN
  [slug |-> Len(slug), branch |-> Len(branch), version |-> Len(version),
   kind |-> IF a = 0 THEN "graph" ELSE IF h = 0 THEN "branch" ELSE "version",
   v |-> IF slug = <<>> \/ FirstAt(slug, "/") # 0 \/ (a # 0 /\ branch = <<>>) \/ (h # 0 /\ version = <<>>) THEN "refuse"
         ELSE IF FirstAt(slug, "#") # 0 THEN "open" ELSE "accept"]
Show(s) == LET r == Read(s) IN
  SubSeq(s, 1, r.slug) \o (IF r.kind = "graph" THEN <<>> ELSE <<"@">> \o SubSeq(s, r.slug + 2, r.slug + 1 + r.branch))
                       \o (IF r.kind = "version" THEN <<"#">> \o SubSeq(s, r.slug + r.branch + 3, Len(s)) ELSE <<>>)
Init == text = <<>> /\ PrintT("CASE " \o ToJson([s |-> <<>>, r |-> Read(<<>>)]))
Next == /\ Len(text) < MaxLen
        /\ \E c \in Chars : /\ text' = Append(text, c)
                            /\ PrintT("CASE " \o ToJson([s |-> Append(text, c), r |-> Read(Append(text, c))]))
RoundTrip == Show(text) = text
=============================================================================
