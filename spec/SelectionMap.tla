---------------------------- MODULE SelectionMap ---------------------------
(* Field selection maps (the `field` argument of @require and @is) of the  *)
(* composite-schemas specification, at the level of tokens.                *)
(* The grammar is a parse relation: Value(s, i) is the set of all pairs    *)
(* <<tree, j>> such that tree derives the tokens i .. j - 1 of s.  The     *)
(* state is a text; a walk edits it and stays within the texts that have a *)
(* parse, printing its neighbours with their verdicts and trees.           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen                        \* for the exhaustive search
VARIABLES toks, said, dice

\* n is a name; the chosen names are not part of the model: trees refer to names by position.
\* x is a text that is no token (a number, a name with a dash, ...).
Tokens == {"n", "<", ">", ".", "{", "}", "[", "]", "|", ":", "x"}

At(s, i, t) == i <= Len(s) /\ s[i] = t
None == 0

\* ------------------------------------------------------------ grammar
\* Segment ::= n [ '<' n '>' ]
Segment(s, i) ==
  IF ~At(s, i, "n") THEN {}
  ELSE { <<[f |-> i, t |-> None], i + 1>> } \cup
       (IF At(s, i + 1, "<") /\ At(s, i + 2, "n") /\ At(s, i + 3, ">") THEN { <<[f |-> i, t |-> i + 2], i + 4>> } ELSE {})
\* Segments ::= Segment { '.' Segment }
RECURSIVE Segments(_, _)
Segments(s, i) ==
  UNION { { << <<x[1]>>, x[2]>> } \cup
          (IF At(s, x[2], ".") THEN { << <<x[1]>> \o y[1], y[2]>> : y \in Segments(s, x[2] + 1) } ELSE {}) : x \in Segment(s, i) }
\* Path ::= [ '<' n '>' '.' ] Segments
Path(s, i) ==
  { <<[t |-> None, s |-> x[1]], x[2]>> : x \in Segments(s, i) } \cup
  (IF At(s, i, "<") /\ At(s, i + 1, "n") /\ At(s, i + 2, ">") /\ At(s, i + 3, ".")
   THEN { <<[t |-> i + 1, s |-> x[1]], x[2]>> : x \in Segments(s, i + 4) } ELSE {})

NoPath == [t |-> None, s |-> <<>>]
Entry(k, p, o, l) == [k |-> k, p |-> p, o |-> o, l |-> l]
RECURSIVE Value(_, _), Fields(_, _)
Object(s, i) == IF At(s, i, "{") THEN { <<x[1], x[2] + 1>> : x \in { y \in Fields(s, i + 1) : At(s, y[2], "}") } } ELSE {}
List(s, i) == IF At(s, i, "[") THEN { <<x[1], x[2] + 1>> : x \in { y \in Value(s, i + 1) : At(s, y[2], "]") } } ELSE {}
\* Entry ::= '.' | Path | [ Path '.' ] Object | [ Path ] List
OneEntry(s, i) ==
  (IF At(s, i, ".") THEN { <<Entry("identity", NoPath, <<>>, <<>>), i + 1>> } ELSE {})
  \cup { <<Entry("object", NoPath, x[1], <<>>), x[2]>> : x \in Object(s, i) }
  \cup { <<Entry("list", NoPath, <<>>, x[1]), x[2]>> : x \in List(s, i) }
  \cup UNION { { <<Entry("path", p[1], <<>>, <<>>), p[2]>> }
               \cup (IF At(s, p[2], ".") THEN { <<Entry("object", p[1], x[1], <<>>), x[2]>> : x \in Object(s, p[2] + 1) } ELSE {})
               \cup { <<Entry("list", p[1], <<>>, x[1]), x[2]>> : x \in List(s, p[2]) } : p \in Path(s, i) }
\* Value ::= Entry { '|' Entry }
Value(s, i) ==
  UNION { { << <<x[1]>>, x[2]>> } \cup
          (IF At(s, x[2], "|") THEN { << <<x[1]>> \o y[1], y[2]>> : y \in Value(s, x[2] + 1) } ELSE {}) : x \in OneEntry(s, i) }
\* Fields ::= { n [ ':' Value ] }
Fields(s, i) ==
  { << <<>>, i>> } \cup
  (IF ~At(s, i, "n") THEN {}
   ELSE UNION { { << <<[k |-> i, v |-> x[1]]>> \o y[1], y[2]>> : y \in Fields(s, x[2]) } :
                x \in { << <<>>, i + 1>> } \cup (IF At(s, i + 1, ":") THEN Value(s, i + 2) ELSE {}) })

Parses(s) == { x[1] : x \in { y \in Value(s, 1) : y[2] = Len(s) + 1 } }

\* ------------------------------------------------------------ printing
\* The canonical text of a tree, whose names are the positions they had.
RECURSIVE PValue(_), PFields(_)
Name(i) == << <<"n", i>> >>
Tok(t) == << <<t, 0>> >>
RECURSIVE Join(_, _)
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
PSegment(x) == Name(x.f) \o (IF x.t = None THEN <<>> ELSE Tok("<") \o Name(x.t) \o Tok(">"))
PPath(p) == (IF p.t = None THEN <<>> ELSE Tok("<") \o Name(p.t) \o Tok(">") \o Tok(".")) \o Join([i \in 1..Len(p.s) |-> PSegment(p.s[i])], Tok("."))
PEntry(x) ==
  IF x.k = "identity" THEN Tok(".")
  ELSE IF x.k = "path" THEN PPath(x.p)
  ELSE (IF x.p = NoPath THEN <<>> ELSE PPath(x.p) \o (IF x.k = "object" THEN Tok(".") ELSE <<>>))
       \o (IF x.k = "object" THEN Tok("{") \o PFields(x.o) \o Tok("}") ELSE Tok("[") \o PValue(x.l) \o Tok("]"))
PValue(v) == Join([i \in 1..Len(v) |-> PEntry(v[i])], Tok("|"))
PFields(fs) == IF fs = <<>> THEN <<>>
               ELSE Name(fs[1].k) \o (IF fs[1].v = <<>> THEN <<>> ELSE Tok(":") \o PValue(fs[1].v)) \o PFields(Tail(fs))

\* ------------------------------------------------------------ the walk
Snippets == { <<"|", "n">>, <<".", "n">>, <<"<", "n", ">">>, <<"[", "n", "]">>, <<".", "{", "n", "}">>, <<"n">>, <<":", "n">>,
              <<"<", "n", ">", ".">>, <<"{", "}">>, <<"n", ":", ".">>, <<"n", ":">>, <<"n", ".">>, <<"|", ".">>, <<"{", "n", ":", "n", "n", "}", "|">>,
              <<"n", ":", "{", "n", "}">>, <<".", "n", "[", "n", "]">>, <<"|", "[", "n", "|", "n", "]">> } \cup { <<t>> : t \in Tokens }
SnipSeq == SetToSeq(Snippets)
TokSeq == SetToSeq(Tokens)
Pick(k, S) == S[(dice[k] % Len(S)) + 1]
PutAt(s, i, x) == SubSeq(s, 1, i) \o x \o SubSeq(s, i + 1, Len(s))
Cut(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
Edit(s) ==
  LET n == Len(s)
      i == dice[2] % (n + 1)
      m == IF n - i > 7 THEN 7 ELSE n - i
      j == i + (dice[3] % (m + 1))
      d == dice[1] % 16 IN
  CASE d < 9 -> PutAt(s, i, Pick(4, SnipSeq))
    [] d < 11 -> Cut(s, i, j)
    [] d = 11 -> IF n = 0 \/ i = 0 THEN s ELSE [s EXCEPT ![i] = Pick(4, TokSeq)]
    [] d = 12 -> PutAt(s, (dice[4] % (n + 1)), SubSeq(s, i + 1, j))                     \* repeat a part elsewhere
    [] d = 13 -> SubSeq(s, 1, i) \o <<"[">> \o SubSeq(s, i + 1, j) \o <<"]">> \o SubSeq(s, j + 1, n)
    [] d = 14 -> SubSeq(s, 1, i) \o <<"{", "n", ":">> \o SubSeq(s, i + 1, j) \o <<"}">> \o SubSeq(s, j + 1, n)
    [] OTHER -> SubSeq(s, 1, i) \o <<"{">> \o SubSeq(s, i + 1, j) \o <<"}">> \o SubSeq(s, j + 1, n)

Say(s) == LET P == Parses(s) IN PrintT("CASE " \o ToJson([toks |-> s, ok |-> P # {}, tree |-> IF P = {} THEN <<>> ELSE CHOOSE t \in P : TRUE]))
Dice == TLCEval([k \in 1..4 |-> RandomElement(0..(99999 + Len(toks)))])
Init == toks = <<"n">> /\ said = 0 /\ dice = [k \in 1..4 |-> 7 * k]
Next ==
  LET s == Edit(toks) IN
  /\ Say(s)
  /\ toks' = IF Parses(s) # {} /\ Len(s) <= 26 THEN s ELSE IF said % 40 = 39 THEN <<"n">> ELSE toks
  /\ said' = said + 1
  /\ dice' = Dice

\* ------------------------------------------------------------ all short texts
InitAll == toks = <<>> /\ said = 0 /\ dice = <<>>
NextAll == /\ Len(toks) < MaxLen
           /\ \E t \in Alphabet : toks' = Append(toks, t) /\ Say(Append(toks, t))
           /\ UNCHANGED <<said, dice>>

\* ------------------------------------------------------------ invariants
\* No text has two readings.
Unambiguous == Cardinality(Parses(toks)) <= 1
\* Printing gives the text back, so that printing and parsing are inverse.
Printed == \A t \in Parses(toks) : [i \in 1..Len(PValue(t)) |-> PValue(t)[i][1]] = toks
                                   /\ \A i \in 1..Len(PValue(t)) : PValue(t)[i][2] \in {0, i}
\* A text can be put anywhere a value can stand.
Closed == Parses(toks) # {} => /\ Parses(<<"[">> \o toks \o <<"]">>) # {}
                               /\ Parses(<<"{", "n", ":">> \o toks \o <<"n", "}">>) # {}
                               /\ Parses(<<"n", "|">> \o toks) # {}
=============================================================================
