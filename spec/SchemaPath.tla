------------------------------ MODULE SchemaPath ---------------------------
(* Paths of schema changes: the grammar documented in path.rs, decided for *)
(* every string over a small alphabet.  ":schema" is the single symbol S,  *)
(* "[12]" the single symbol I, and E a letter that names cannot contain.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES s

Digits == {"0", "7"}
Letters == {"a", "_"}
AllIn(t, S) == \A i \in 1..Len(t) : t[i] \in S
IsName(t) == Len(t) > 0 /\ t[1] \in Letters /\ AllIn(t, Letters \cup Digits)
IsIndex(t) == t = <<"I">> \/ (Len(t) > 2 /\ t[1] = "[" /\ t[Len(t)] = "]" /\ AllIn(SubSeq(t, 2, Len(t) - 1), Digits))
\* every way of cutting t in two
Cuts(t) == { <<SubSeq(t, 1, k), SubSeq(t, k + 1, Len(t))>> : k \in 0..Len(t) }
IsIndexed(t) == \E c \in Cuts(t) : IsName(c[1]) /\ IsIndex(c[2])
Dots(t) == { i \in 1..Len(t) : t[i] = "." }
RECURSIVE Segments(_)
Segments(t) ==
  IF Dots(t) = {} THEN <<t>>
  ELSE LET i == CHOOSE j \in Dots(t) : \A k \in Dots(t) : j <= k IN <<SubSeq(t, 1, i - 1)>> \o Segments(SubSeq(t, i + 1, Len(t)))
Prefixed(c, t) == Len(t) > 0 /\ t[1] = c
Drop(t) == SubSeq(t, 2, Len(t))
IsDirectiveUse(t) == Prefixed("@", t) /\ IsIndexed(Drop(t))
IsImpl(t) == Prefixed("&", t) /\ IsName(Drop(t))
TypePart(t) == IsName(t) \/ IsIndexed(t)

What(t) ==
  LET g == Segments(t) IN
  CASE Len(g) = 1 /\ g[1] = <<"S">> -> "schema"
    [] Len(g) = 1 /\ Prefixed("S", g[1]) /\ IsIndex(Drop(g[1])) -> "schema extension"
    [] Len(g) = 1 /\ Prefixed("@", g[1]) /\ IsName(Drop(g[1])) -> "directive definition"
    [] Len(g) = 1 /\ TypePart(g[1]) -> "type"
    [] Len(g) = 2 /\ TypePart(g[1]) /\ IsDirectiveUse(g[2]) -> "directive on a type"
    [] Len(g) = 2 /\ TypePart(g[1]) /\ IsImpl(g[2]) -> "implementation"
    [] Len(g) = 2 /\ TypePart(g[1]) /\ IsName(g[2]) -> "field"
    [] Len(g) = 3 /\ TypePart(g[1]) /\ IsName(g[2]) /\ IsDirectiveUse(g[3]) -> "directive on a field"
    [] Len(g) = 3 /\ TypePart(g[1]) /\ IsName(g[2]) /\ IsName(g[3]) -> "argument"
    [] OTHER -> "invalid"

\* Exactly one thing is meant: a path of one kind is not read as another.
Readings(t) ==
  LET g == Segments(t) IN
  { k \in {"schema", "directive definition", "type"} :
      \/ k = "schema" /\ Prefixed("S", g[1])
      \/ k = "directive definition" /\ Prefixed("@", g[1])
      \/ k = "type" /\ TypePart(g[1]) }
Unambiguous == Cardinality(Readings(s)) <= 1
Joined == \A t \in {s} : Len(Segments(t)) = Cardinality(Dots(t)) + 1

Init == s = <<>>
Next ==
  /\ Len(s) < MaxLen
  /\ \E c \in Alphabet : s' = Append(s, c)
  /\ PrintT("CASE " \o ToJson([s |-> s', what |-> What(s')]))
=============================================================================
