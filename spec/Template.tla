----------------------------- MODULE Template -----------------------------
(* Strings with template expressions.  An expression is                    *)
(*     {{ NAME }}      NAME of letters, digits, `_` and `.`                *)
(* with any white space around NAME; everything else is ordinary text.     *)
(* `env.X` stands for the value of the environment variable X; every other *)
(* name, and a variable that is not set or is not text, is an error.       *)
(* A text is a sequence of tokens:                                         *)
(*   { } . s (white space)  - (no name character)  é (not ASCII)           *)
(*   env, v, w, o, n, b, u, 1 : pieces of names                            *)
(* Names are token sequences; the environment is a function on them.       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES toks, done, dice

Words == {"env", "v", "w", "o", "n", "b", "u", "1"}
NameTok(t) == t \in Words \cup {"."}

\* ------------------------------------------------------------ environment
\* The value is a token sequence; "b": bytes that are no text; absent: not set.
Env == [x \in { <<"v">>, <<"w">>, <<"o">>, <<"n">>, <<"b">>, <<"env">>, <<"v", "1">> } |->
          CASE x = <<"v">> -> <<"{", "{", "s", "env", ".", "w", "s", "}", "}">>      \* looks like an expression
            [] x = <<"w">> -> <<"w", "-", "s", "w">>
            [] x = <<"o">> -> <<>>
            [] x = <<"n">> -> <<"é", "v">>
            [] x = <<"b">> -> <<"b">>
            [] x = <<"env">> -> <<"}", "}">>
            [] OTHER -> <<"{", "{", "s">>]
IsText(x) == x # <<"b">>

\* ------------------------------------------------------------ expressions
RECURSIVE SkipWs(_, _), SkipName(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ s[i] = "s" THEN SkipWs(s, i + 1) ELSE i
SkipName(s, i) == IF i <= Len(s) /\ NameTok(s[i]) THEN SkipName(s, i + 1) ELSE i
At(s, i, t) == i <= Len(s) /\ s[i] = t
\* the expression that starts at i: <<first of the name, last of the name, end>>, or <<>>
ExprAt(s, i) ==
  IF ~(At(s, i, "{") /\ At(s, i + 1, "{")) THEN <<>>
  ELSE LET j == SkipWs(s, i + 2)
           k == SkipName(s, j)
           m == SkipWs(s, k) IN
       IF k > j /\ At(s, m, "}") /\ At(s, m + 1, "}") THEN <<j, k - 1, m + 1>> ELSE <<>>
RECURSIVE Scan(_, _)
\* the text as pieces: [k |-> "t", i] for a token, [k |-> "x", n |-> name tokens] for an expression
Scan(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == ExprAt(s, i) IN
       IF e = <<>> THEN <<[k |-> "t", i |-> i, n |-> <<>>]>> \o Scan(s, i + 1)
       ELSE <<[k |-> "x", i |-> i, n |-> SubSeq(s, e[1], e[2])]>> \o Scan(s, e[3] + 1)
\* exactly two parts, the first `env`
Dots(n) == { i \in DOMAIN n : n[i] = "." }
Variable(n) == IF Cardinality(Dots(n)) = 1 /\ Len(n) >= 2 /\ n[1] = "env" /\ n[2] = "." THEN <<SubSeq(n, 3, Len(n))>> ELSE <<>>
Fault(p) ==
  IF p.k = "t" THEN "none"
  ELSE LET v == Variable(p.n) IN
       IF v = <<>> THEN "scope"
       ELSE IF v[1] \notin DOMAIN Env THEN "unset"
       ELSE IF ~IsText(v[1]) THEN "not text" ELSE "none"
Value(p, s) == IF p.k = "t" THEN <<s[p.i]>> ELSE Env[Variable(p.n)[1]]

Expand(s) ==
  LET ps == Scan(s, 1)
      bad == { i \in DOMAIN ps : Fault(ps[i]) # "none" } IN
  IF bad # {} THEN [ok |-> FALSE, ascii |-> FALSE, out |-> <<>>, faults |-> { [f |-> Fault(ps[i]), n |-> ps[i].n] : i \in bad }]
  ELSE LET out == FlattenSeq([i \in DOMAIN ps |-> Value(ps[i], s)]) IN
       [ok |-> TRUE, ascii |-> \A i \in DOMAIN out : out[i] # "é", out |-> out, faults |-> {}]

Case(s) == LET e == Expand(s) IN
  [toks |-> s, ok |-> e.ok, ascii |-> e.ascii,
   \* literal tokens by position (their spelling is chosen outside), values by name
   pieces |-> IF e.ok THEN LET ps == Scan(s, 1) IN [i \in DOMAIN ps |-> IF ps[i].k = "t" THEN [i |-> ps[i].i, n |-> <<>>] ELSE [i |-> 0, n |-> Variable(ps[i].n)[1]]] ELSE <<>>,
   faults |-> e.faults]

\* ------------------------------------------------------------ all short texts
InitAll == toks = <<>> /\ done = FALSE /\ dice = <<>>
NextAll == /\ Len(toks) < MaxLen
           /\ \E t \in Alphabet : toks' = Append(toks, t)
           /\ PrintT("CASE " \o ToJson(Case(toks')))
           /\ UNCHANGED <<done, dice>>
\* ------------------------------------------------------------ long texts: fragments
E(n) == <<"{", "{", "s">> \o n \o <<"s", "}", "}">>
Fragments == <<
  E(<<"env", ".", "v">>), E(<<"env", ".", "w">>), E(<<"env", ".", "o">>), E(<<"env", ".", "env">>), E(<<"env", ".", "v", "1">>),
  <<"{", "{", "env", ".", "w", "}", "}">>, E(<<"env", ".", "w">>), E(<<"env", ".", "n">>), E(<<"env", ".", "w">>), E(<<"env", ".", "v">>),
  <<"{">>, <<"}">>, <<"{", "{">>, <<"}", "}">>, <<"s">>, <<"-">>, <<"v">>, <<"w", ".", "w">>, <<"env", ".", "v">>, <<"é">>,
  <<"{", "{", "s", "env", ".", "-", "}", "}">>, <<"{", "{", "s", "}", "}">>, <<"{", "{", "s", "env", "s", ".", "s", "v", "s", "}", "}">>,
  <<"{", "{", "{", "s", "env", ".", "w", "s", "}", "}", "}">>, <<"{", "{", "s", "env", ".", "w", "s", "}">>, <<"{", "s", "env", ".", "w", "s", "}", "}">> >>
Rare == << E(<<"env", ".", "u">>), E(<<"env">>), E(<<"v", ".", "v">>), E(<<"env", ".", "b">>), E(<<"env", ".", "v", ".", "v">>), E(<<"env", ".">>),
           E(<<".", "env", ".", "v">>), E(<<"env", ".", "w", "w">>), E(<<"env", "env", ".", "v">>), E(<<".">>) >>
Pick(d) == IF d % 12 = 0 THEN Rare[1 + ((d \div 12) % Len(Rare))] ELSE Fragments[1 + ((d \div 12) % Len(Fragments))]
Init == toks = <<>> /\ done = FALSE /\ dice = RandomElement(1..99999)
Next == LET s == IF done THEN Pick(dice) ELSE toks \o Pick(dice) IN
        /\ toks' = s
        /\ done' = (Len(s) > 30)
        /\ dice' = TLCEval(RandomElement(0..(99999 + Len(s))))
        /\ PrintT("CASE " \o ToJson(Case(s)))

\* ------------------------------------------------------------ invariants
\* a text with no expression is unchanged
Verbatim == (\A i \in DOMAIN toks : ExprAt(toks, i) = <<>>) => (Expand(toks).ok /\ Expand(toks).out = toks)
\* expansion of what is already expanded is not part of expansion: the length is that of the pieces
Local == LET ps == Scan(toks, 1) IN \A i \in DOMAIN ps : ps[i].k = "x" => ExprAt(toks, ps[i].i) # <<>>
\* an expression that a text ends with is expanded on its own
Compositional ==
  \A i \in DOMAIN toks : LET e == ExprAt(toks, i)
                             ps == Scan(toks, 1) IN
    (e # <<>> /\ \E p \in DOMAIN ps : ps[p].k = "x" /\ ps[p].i = i) =>
      LET a == Expand(SubSeq(toks, 1, i - 1))
          b == Expand(SubSeq(toks, i, Len(toks)))
          all == Expand(toks) IN
      /\ all.ok = (a.ok /\ b.ok)
      /\ all.ok => all.out = a.out \o b.out
=============================================================================
