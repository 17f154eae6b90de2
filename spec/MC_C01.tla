------------------------------ MODULE MC_C01 ------------------------------
(* Output fields: every assignment of wrapping vectors and base types.     *)
EXTENDS Composition, Json
CONSTANTS N,        \* subgraphs
          Depth     \* maximal list depth
VARIABLES pick, out

RECURSIVE Shapes(_)
\* all wrapper sequences with up to d lists
Shapes(d) ==
  IF d = 0 THEN {<<>>, <<"N">>}
  ELSE LET s == Shapes(d - 1) IN s \cup UNION { { x \o <<"L">>, x \o <<"L", "N">> } : x \in s }
ShapeSeq == SetSeq(Shapes(Depth))
Containers == <<"object", "interface", "root", "mutation">>
\* slot 1: where the field stands; slot 2: its base type; then a shape per subgraph; last: does the last subgraph differ in base type
Slots == N + 3
Width(k) == IF k = 1 THEN Len(Containers) ELSE IF k = 2 THEN 2 ELSE IF k = Slots THEN 2 ELSE Len(ShapeSeq)
LetterOf == <<"a", "b", "c", "d">>
Build(p) ==
  LET where == Containers[p[1]]
      base == <<"Int", "O">>[p[2]]
      O == Obj("O", <<D0("shareable")>>, <<F("k", Null("Int"))>>)
      O2 == Obj("O2", <<D0("shareable")>>, <<F("k", Null("Int"))>>)
      ty(i) == T(IF i = N /\ p[Slots] = 2 THEN (IF base = "Int" THEN "String" ELSE "O2") ELSE base, ShapeSeq[p[i + 2]])
      sh == <<D0("shareable")>>
      sub(i) == SG(LetterOf[i], 2,
        CASE where = "object"    -> <<Obj("Query", <<>>, <<F("q" \o LetterOf[i], Null("P"))>>), Obj("P", <<>>, <<FD("f", ty(i), sh)>>), O, O2>>
          [] where = "interface" -> <<Obj("Query", <<>>, <<F("q" \o LetterOf[i], Null("P"))>>), Iface("P", <<>>, <<>>, <<F("f", ty(i))>>), O, O2>>
          [] where = "root"      -> <<Obj("Query", <<>>, <<FD("f", ty(i), sh)>>), O, O2>>
          [] where = "mutation"  -> <<Obj("Query", <<>>, <<F("q" \o LetterOf[i], Null("Int"))>>), Obj("Mutation", <<>>, <<FD("f", ty(i), sh)>>), O, O2>>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* C01, stated on its own terms: level by level.
Lists(w) == Cardinality({ i \in DOMAIN w : w[i] = "L" })
RECURSIVE NonNullAt(_, _)
NonNullAt(w, d) == \* is the type with the d outermost lists removed non-null
  IF d = 0 THEN w # <<>> /\ w[Len(w)] = "N"
  ELSE LET u == IF w[Len(w)] = "N" THEN SubSeq(w, 1, Len(w) - 1) ELSE w IN NonNullAt(SubSeq(u, 1, Len(u) - 1), d - 1)
Texts == { TypeText(T(b, w)) : b \in {"Int", "O"}, w \in Shapes(Depth) }
MergeInv ==
  P!Done =>
    LET where == Containers[pick[1]]
        n == CASE where = "root" -> "Query" [] where = "mutation" -> "Mutation" [] OTHER -> "P"
        ws == { ShapeSeq[pick[i + 2]] : i \in 1..N }
        sameBase == N = 1 \/ pick[Slots] = 1
        sameDepth == Cardinality({ Lists(w) : w \in ws }) = 1
    IN /\ out.ok => sameBase /\ sameDepth
       /\ out.ok => LET t == P!FieldNamed(n, "f").t
                        merged == CHOOSE w \in Shapes(Depth) : \E b \in {"Int", "O", "String", "O2"} : TypeText(T(b, w)) = t
                    IN \A d \in 0..Lists(merged) : NonNullAt(merged, d) <=> \A w \in ws : NonNullAt(w, d)
=============================================================================
