-------------------------------- MODULE Ids --------------------------------
(* Extension identifiers `name-version`, character by character.           *)
(* Classes of characters: a letter, 0 the digit zero, 7 another digit, and *)
(* the marks - . + ; x is any other character.                             *)
(* The state is a text; a walk edits it.  Half of the walks write a name   *)
(* and a version and print them as the identifier's text.                  *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES text, said, dice

Digit(c) == c \in {"0", "7"}
Word(c) == c \in {"a", "0", "7", "-"}
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
\* The parts of s between the marks m.
PartsAt(s, m) ==
  LET cuts == { 0 } \cup { i \in 1..Len(s) : s[i] = m } \cup { Len(s) + 1 }
      nth(k) == CHOOSE c \in cuts : Cardinality({ d \in cuts : d < c }) = k - 1 IN
  [k \in 1..(Cardinality(cuts) - 1) |-> SubSeq(s, nth(k) + 1, nth(k + 1) - 1)]
FirstAt(s, m) == IF \E i \in 1..Len(s) : s[i] = m THEN CHOOSE i \in 1..Len(s) : s[i] = m /\ \A j \in 1..(i - 1) : s[j] # m ELSE 0
Number(s) == s # <<>> /\ All(s, Digit) /\ (s[1] = "0" => Len(s) = 1)
PreIdent(s) == s # <<>> /\ All(s, Word) /\ (All(s, Digit) => Number(s))
BuildIdent(s) == s # <<>> /\ All(s, Word)
\* Semantic versions: core [ '-' pre-release ] [ '+' build ]
Version(s) ==
  LET p == FirstAt(s, "+")
      front == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      build == IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, Len(s))
      d == FirstAt(front, "-")
      core == IF d = 0 THEN front ELSE SubSeq(front, 1, d - 1)
      pre == IF d = 0 THEN <<>> ELSE SubSeq(front, d + 1, Len(front))
      nums == PartsAt(core, ".") IN
  /\ Len(nums) = 3 /\ All(nums, Number)
  /\ d # 0 => All(PartsAt(pre, "."), PreIdent)
  /\ p # 0 => All(PartsAt(build, "."), BuildIdent)
\* Names have no dots, so that they cannot be taken for a version.
Name(s) == s # <<>> /\ All(s, LAMBDA c : c \in {"a", "0", "7", "-", "_"})
Splits(s) == { i \in 1..Len(s) : s[i] = "-" /\ Version(SubSeq(s, i + 1, Len(s))) }
Reads(s) == { i \in Splits(s) : Name(SubSeq(s, 1, i - 1)) }
\* "open": only a reading with an unusual name exists.
Verdict(s) == IF Reads(s) # {} THEN "accept" ELSE IF \A i \in Splits(s) : i = 1 THEN "refuse" ELSE "open"

Chars == {"a", "0", "7", "-", ".", "+", "_", "x"}
CharSeq == SetToSeq(Chars)
Snippets == << <<"0", ".", "7", ".", "0">>, <<"-", "7", ".", "0", ".", "0">>, <<"-", "a">>, <<"+", "a">>, <<"a", "-", "a">>, <<"-", "a", ".", "0">>, <<"+", "0", "7">>,
               <<"7", "0">>, <<"-", "0", "a">>, <<"-", "-">>, <<".", "7">>, <<"+", "a", "-", "7">>, <<"-", "0", ".", "0", ".", "7", "-", "7", ".", "7", ".", "7">> >>
PutAt(s, i, x) == SubSeq(s, 1, i) \o x \o SubSeq(s, i + 1, Len(s))
Edit(s) ==
  LET n == Len(s)
      i == dice[2] % (n + 1)
      m == IF n - i > 4 THEN 4 ELSE n - i
      j == i + (dice[3] % (m + 1))
      d == dice[1] % 8 IN
  CASE d < 3 -> PutAt(s, i, Snippets[1 + (dice[4] % Len(Snippets))])
    [] d < 5 -> PutAt(s, i, <<CharSeq[1 + (dice[4] % Len(CharSeq))]>>)
    [] d = 5 -> SubSeq(s, 1, i) \o SubSeq(s, j + 1, n)
    [] d = 6 -> IF i = 0 THEN s ELSE [s EXCEPT ![i] = CharSeq[1 + (dice[4] % Len(CharSeq))]]
    [] OTHER -> PutAt(s, i, SubSeq(s, i + 1, j))
Start == <<"a", "-", "7", ".", "0", ".", "7">>
Say(s) == PrintT("CASE " \o ToJson([s |-> s, v |-> Verdict(s), at |-> IF Reads(s) = {} THEN 0 ELSE CHOOSE i \in Reads(s) : TRUE]))
Init == text = Start /\ said = 0 /\ dice = [k \in 1..4 |-> RandomElement(1..99999)]
Next ==
  LET s == Edit(text) IN
  /\ Say(s)
  /\ text' = IF Verdict(s) = "accept" /\ Len(s) <= 24 THEN s ELSE IF said % 9 = 8 THEN Start ELSE text
  /\ said' = said + 1
  /\ dice' = TLCEval([k \in 1..4 |-> RandomElement(0..(99999 + said))])
\* ------------------------------------------------------------ invariants
Unambiguous == Cardinality(Reads(text)) <= 1
\* Writing a name and a version and reading the text gives them back.
WriteRead == \A i \in Splits(text) : Name(SubSeq(text, 1, i - 1)) => Reads(SubSeq(text, 1, i) \o SubSeq(text, i + 1, Len(text))) = {i}
=============================================================================
