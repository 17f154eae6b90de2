------------------------------ MODULE MC_C02 ------------------------------
(* Arguments of shared fields and fields of shared input objects: presence,*)
(* type and default in every subgraph.                                     *)
EXTENDS Composition, Json
CONSTANTS N, Full   \* Full: the larger menu of types
VARIABLES pick, out
Containers == <<"object", "root", "interface", "input">>
Types == IF Full THEN <<Null("Int"), Req("Int"), T("Int", <<"L">>), T("Int", <<"N", "L">>), T("Int", <<"N", "L", "N">>), Null("String"), Null("E"), Req("E")>>
         ELSE <<Null("Int"), Req("Int"), T("Int", <<"L">>), Null("String")>>
DefaultsOf(t) == IF t.b = "Int" /\ Len(SelectSeq(t.w, LAMBDA x : x = "L")) = 0 THEN <<<<>>, <<"1">>, <<"2">>>>
                 ELSE IF t.b = "Int" THEN <<<<>>, <<"[1]">>, <<"[2]">>>>
                 ELSE IF t.b = "String" THEN <<<<>>, <<"\"s\"">>>> ELSE <<<<>>, <<"A">>>>
\* every [t, def], and absence
RECURSIVE OptsFrom(_)
OptsFrom(i) == IF i > Len(Types) THEN <<>> ELSE [k \in DOMAIN DefaultsOf(Types[i]) |-> <<[t |-> Types[i], def |-> DefaultsOf(Types[i])[k]]>>] \o OptsFrom(i + 1)
Options == <<<<>>>> \o OptsFrom(1)
Slots == N + 2
\* slot 1: container; slot 2: a second, untouched argument or field beside it
Width(k) == IF k = 1 THEN Len(Containers) ELSE IF k = 2 THEN 2 ELSE Len(Options)
L == <<"a", "b", "c", "d">>
Build(p) ==
  LET where == Containers[p[1]]
      beside == IF p[2] = 2 THEN <<Arg("z", Null("Int"))>> ELSE <<>>
      mine(i) == LET o == Options[p[i + 2]] IN IF o = <<>> THEN <<>> ELSE <<ArgD("x", o[1].t, o[1].def, <<>>)>>
      args(i) == beside \o mine(i)
      E2 == Enum("E", <<>>, <<V("A"), V("B")>>)
      sh == <<D0("shareable")>>
      q(i, t) == Obj("Query", <<>>, <<F("q" \o L[i], t)>>)
      sub(i) == SG(L[i], 2, <<E2>> \o
        CASE where = "object" -> <<q(i, Null("P")), Obj("P", <<>>, <<FA("f", Null("Int"), args(i), sh)>>)>>
          [] where = "root" -> <<Obj("Query", <<>>, <<FA("f", Null("Int"), args(i), sh)>>)>>
          [] where = "interface" -> <<q(i, Null("P")), Iface("P", <<>>, <<>>, <<FA("f", Null("Int"), args(i), <<>>)>>)>>
          [] where = "input" -> <<Obj("Query", <<>>, <<FA("q" \o L[i], Null("Int"), <<Arg("p", Null("P"))>>, <<>>)>>),
                 Input("P", <<>>, <<InF("k", Null("Int"), <<>>, <<>>)>> \o [j \in DOMAIN args(i) |-> InF(args(i)[j].n, args(i)[j].t, args(i)[j].def, <<>>)])>>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* C02 on its own terms
MergeInv ==
  P!Done =>
    LET where == Containers[pick[1]]
        opts == { Options[pick[i + 2]] : i \in 1..N }
        present == { o[1] : o \in opts \ {<<>>} }
        everywhere == <<>> \notin opts
        required == \E o \in present : NonNull(o.t)
        merged == IF where = "input" THEN { f \in P!TypeNamed("P").infields : f.n = "x" }
                  ELSE { a \in P!FieldNamed(IF where = "root" THEN "Query" ELSE "P", "f").args : a.n = "x" }
        defaults == UNION { Ran(o.def) : o \in present }
    IN /\ ~everywhere /\ required => ~out.ok
       /\ out.ok => (merged # {} <=> everywhere)
       /\ out.ok /\ everywhere => \A m \in merged :
            /\ (\E o \in present : m.t = TypeText(o.t))
            /\ required <=> (\E t \in Ran(Types) : TypeText(t) = m.t /\ NonNull(t))
            /\ Ran(m.def) = defaults
       /\ everywhere /\ Cardinality(defaults) > 1 => ~out.ok
       /\ everywhere /\ Cardinality({ o.t.b : o \in present }) > 1 => ~out.ok
=============================================================================
