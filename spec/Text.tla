------------------------------- MODULE Text -------------------------------
(* Strings of a schema document and their GraphQL literals. A character is *)
(* one of a (any plain letter), s (space), n (line feed), t (tab),         *)
(* q (quote), b (backslash), c (control character), u (non-ASCII letter).  *)
(* A behaviour types a string, character by character; in every state the  *)
(* string is written in a schema document and read back, as a quoted       *)
(* literal and, for descriptions, as an indented block string where that   *)
(* is lossless.                                                            *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxLen, Alphabet
VARIABLES str

Cat(ss) == FlattenSeq(ss)

(* quoted literals *)
EscapeChar(c) == CASE c = "q" -> <<"b", "q">> [] c = "b" -> <<"b", "b">> [] c = "n" -> <<"b", "a_n">>
                   [] c = "t" -> <<"b", "a_t">> [] c = "c" -> <<"b", "a_u0007">> [] OTHER -> <<c>>
Quote(s) == Cat([i \in DOMAIN s |-> EscapeChar(s[i])])
Unescaped(c) == CASE c = "a_n" -> "n" [] c = "a_t" -> "t" [] c = "a_u0007" -> "c" [] OTHER -> c
RECURSIVE LexQuoted(_)
\* text between the quotes -> the string, or <<"error">> if the text ends the literal early
LexQuoted(x) == IF x = <<>> THEN <<>>
                ELSE IF x[1] = "q" \/ x[1] = "n" \/ x[1] = "c" THEN <<"error">>
                ELSE IF x[1] = "b" THEN <<Unescaped(x[2])>> \o LexQuoted(SubSeq(x, 3, Len(x)))
                ELSE <<x[1]>> \o LexQuoted(Tail(x))

(* block strings *)
RECURSIVE Lines(_)
Lines(s) == LET nl == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] = "n") IN
            IF nl = <<>> THEN <<s>> ELSE <<SubSeq(s, 1, nl[1] - 1)>> \o Lines(SubSeq(s, nl[1] + 1, Len(s)))
White(c) == c \in {"s", "t"}
Blank(l) == \A i \in DOMAIN l : White(l[i])
Indent(l) == CHOOSE k \in 0..Len(l) : (\A i \in 1..k : White(l[i])) /\ (k = Len(l) \/ ~White(l[k + 1]))
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<"n">> \o Join(Tail(ls))
RECURSIVE TrimFirst(_), TrimLast(_)
TrimFirst(ls) == IF ls # <<>> /\ Blank(ls[1]) THEN TrimFirst(Tail(ls)) ELSE ls
TrimLast(ls) == IF ls # <<>> /\ Blank(ls[Len(ls)]) THEN TrimLast(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
\* the lexical rule of the GraphQL specification (BlockStringValue)
BlockValue(raw) ==
  LET ls == Lines(raw)
      ind == { Indent(ls[i]) : i \in { j \in 2..Len(ls) : ~Blank(ls[j]) } }
      k == IF ind = {} THEN 0 ELSE CHOOSE x \in ind : \A y \in ind : x <= y
      cut(i) == IF i = 1 THEN ls[i] ELSE IF Len(ls[i]) <= k THEN <<>> ELSE SubSeq(ls[i], k + 1, Len(ls[i]))
  IN Join(TrimLast(TrimFirst([i \in DOMAIN ls |-> cut(i)])))

\* a string that an indented block string can hold
IsBlock(s) ==
  \/ s = <<>>
  \/ LET ls == Lines(s) IN
     /\ \A i \in DOMAIN s : s[i] \notin {"t", "c"}
     /\ \A i \in DOMAIN ls : Len(ls[i]) > 0 => ~Blank(ls[i])
     /\ Len(ls[1]) > 0 /\ Len(ls[Len(ls)]) > 0
     /\ \E i \in DOMAIN ls : Len(ls[i]) > 0 /\ ~White(ls[i][1])
Block(s, indent) == LET ls == Lines(s) IN
  <<"n">> \o Cat([i \in DOMAIN ls |-> (IF ls[i] = <<>> THEN <<>> ELSE [k \in 1..indent |-> "s"] \o ls[i]) \o <<"n">>]) \o [k \in 1..indent |-> "s"]

Init == str = <<>>
Type == /\ Len(str) < MaxLen
        /\ \E c \in Alphabet : str' = Append(str, c)
        /\ PrintT("CASE " \o ToJson([s |-> str']))
Next == Type

\* every string can be written and read back
QuotedLossless == LexQuoted(Quote(str)) = str
BlockLossless == IsBlock(str) => \A k \in {0, 2} : BlockValue(Block(str, k)) = str
=============================================================================
