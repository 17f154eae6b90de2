------------------------------ MODULE Wrapping -----------------------------
(* The wrappers of a GraphQL type, from the inside out: L for a list, N    *)
(* for non-null.  A state holds two types and the history of operations    *)
(* that built them; each step applies one operation to one of them.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLists, Steps
VARIABLES w, hist, dice

Lists(s) == Len(SelectSeq(s, LAMBDA x : x = "L"))
NonNull(s) == s # <<>> /\ s[Len(s)] = "N"
Nullable(s) == ~NonNull(s)
InnerNonNull(s) == s # <<>> /\ s[1] = "N"
Bare(s) == IF NonNull(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
List(s) == Append(s, "L")
ListNonNull(s) == s \o <<"L", "N">>
MakeNonNull(s) == IF NonNull(s) THEN s ELSE Append(s, "N")
\* The outermost list and what becomes non-null with it.
Pop(s) == LET b == Bare(s) IN IF Lists(s) = 0 THEN s ELSE SubSeq(b, 1, Len(b) - 1)
\* A place of type s can take a value of type t.
RECURSIVE Lenient(_, _)
Lenient(s, t) ==
  IF NonNull(s) THEN NonNull(t) /\ Lenient(Bare(s), Bare(t))
  ELSE LET b == Bare(t) IN
       IF s = <<>> THEN b = <<>> ELSE b # <<>> /\ Lenient(SubSeq(s, 1, Len(s) - 1), SubSeq(b, 1, Len(b) - 1))

\* Text: the marks left and right of the name.
Left(s) == Lists(s)
Right(s) == [i \in 1..Len(s) |-> IF s[i] = "L" THEN "]" ELSE "!"]
\* The lists from the inside out: are they non-null?
ListNulls(s) == LET pos == { i \in 1..Len(s) : s[i] = "L" } IN
  [k \in 1..Lists(s) |-> LET i == CHOOSE i \in pos : Lists(SubSeq(s, 1, i)) = k IN i < Len(s) /\ s[i + 1] = "N"]

See(s) == [lists |-> ListNulls(s), inner |-> InnerNonNull(s), nonnull |-> NonNull(s), list |-> Lists(s) > 0, iter |-> s, text |-> Right(s)]
Ops == <<"list", "list_non_null", "non_null", "pop", "push_list", "push_list_non_null", "without_list", "without_non_null", "copy", "new", "list", "list_non_null">>
Apply(op, s, other) ==
  CASE op \in {"list", "push_list"} -> List(s)
    [] op \in {"list_non_null", "push_list_non_null"} -> ListNonNull(s)
    [] op = "non_null" -> MakeNonNull(s)
    [] op \in {"pop", "without_list"} -> Pop(s)
    [] op = "without_non_null" -> Bare(s)
    [] op = "copy" -> other
    [] op = "new" -> <<>>
Grows(op) == op \in {"list", "list_non_null", "push_list", "push_list_non_null"}
Obs(op, r, before, after) ==
  LET s == after[r] IN
  [op |-> op, r |-> r, see |-> See(s), popped |-> IF Lists(before[r]) = 0 THEN "none" ELSE IF NonNull(before[r]) THEN "nonnull" ELSE "list",
   lenient |-> <<Lenient(after[1], after[2]), Lenient(after[2], after[1])>>, same |-> after[1] = after[2]]
Dice == TLCEval([k \in 1..3 |-> RandomElement(0..(99999 + Len(hist)))])
Init == w = << <<>>, <<>> >> /\ hist = <<>> /\ dice = [k \in 1..3 |-> RandomElement(1..99999)]
Next ==
  LET r == 1 + (dice[1] % 2)
      o == Ops[1 + (dice[2] % Len(Ops))]
      op == IF Grows(o) /\ Lists(w[r]) >= MaxLists THEN "pop" ELSE IF o = "new" /\ (dice[3] % 4) # 0 THEN "list" ELSE o
      op2 == IF Grows(op) /\ Lists(w[r]) >= MaxLists THEN "pop" ELSE op
      w2 == [w EXCEPT ![r] = Apply(op2, w[r], w[3 - r])]
      h == Append(hist, Obs(op2, r, w, w2)) IN
  IF Len(h) = Steps THEN PrintT("CASE " \o ToJson(h)) /\ w' = << <<>>, <<>> >> /\ hist' = <<>> /\ dice' = Dice
  ELSE w' = w2 /\ hist' = h /\ dice' = Dice

\* All types, each reached by one history, with every operation applied to it.
All == <<"list", "list_non_null", "non_null", "pop", "push_list", "push_list_non_null", "without_list", "without_non_null">>
InitAll == w = << <<>>, <<>> >> /\ hist = <<>> /\ dice = <<>>
NextAll ==
  /\ \E i \in 1..Len(All) :
       LET op == All[i]
           w2 == [w EXCEPT ![1] = Apply(op, w[1], w[2])] IN
       /\ ~(Grows(op) /\ Lists(w[1]) >= MaxLists)
       /\ w' = w2
       /\ hist' = IF w2[1] = w[1] THEN hist ELSE Append(hist, Obs(op, 1, w, w2))
       /\ PrintT("CASE " \o ToJson(Append(hist, Obs(op, 1, w, w2))))
  /\ UNCHANGED dice
Seen == w

\* ------------------------------------------------------------ invariants
WellFormed == \A r \in 1..2 : \A i \in 1..(Len(w[r]) - 1) : ~(w[r][i] = "N" /\ w[r][i + 1] = "N")
Order == /\ Lenient(w[1], w[1])
         /\ (Lenient(w[1], w[2]) /\ Lenient(w[2], w[1])) => w[1] = w[2]
         /\ Lenient(Bare(w[1]), w[1])
         /\ Lenient(w[1], w[2]) => (Lenient(List(w[1]), List(w[2])) /\ Lists(w[1]) = Lists(w[2]))
Inverse == /\ Pop(List(w[1])) = w[1]
           /\ Pop(ListNonNull(w[1])) = w[1]
           /\ Bare(MakeNonNull(w[1])) = Bare(w[1])
=============================================================================
