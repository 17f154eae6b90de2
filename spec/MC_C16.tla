------------------------------ MODULE MC_C16 ------------------------------
(* What makes composition fail as a whole: a name given different kinds by *)
(* up to three subgraphs, or no query root.                                *)
EXTENDS Composition, Json
CONSTANTS N, Name      \* Name: of the type that all of them define
VARIABLES pick, out
Kinds == <<"none", "object", "interface", "input", "enum", "union", "scalar", "entity-interface", "interface-object">>
Def(k) == CASE k = "none" -> <<>>
   [] k = "object" -> <<Obj(Name, <<D0("shareable")>>, <<F("f", Null("Int"))>>)>>
   [] k = "interface" -> <<Iface(Name, <<>>, <<>>, <<F("f", Null("Int"))>>)>>
   [] k = "input" -> <<Input(Name, <<>>, <<InF("f", Null("Int"), <<>>, <<>>)>>)>>
   [] k = "enum" -> <<Enum(Name, <<>>, <<V("f")>>)>>
   [] k = "union" -> <<Union(Name, <<>>, <<"M">>), Obj("M", <<D0("shareable")>>, <<F("f", Null("Int"))>>)>>
   [] k = "scalar" -> <<Scalar(Name, <<>>)>>
   [] k = "entity-interface" -> <<Iface(Name, <<Key(<<S0("f")>>)>>, <<>>, <<F("f", Null("Int"))>>)>>
   [] k = "interface-object" -> <<Obj(Name, <<Key(<<S0("f")>>), D0("interfaceObject")>>, <<FD("f", Null("Int"), <<D0("shareable")>>)>>)>>
Letters == <<"a", "b", "c">>
\* choice 1: the subgraph that defines the query root (0: none)
Slots == N + 1
Width(k) == IF k = 1 THEN N + 1 ELSE Len(Kinds)
Build(p) == [i \in 1..N |-> SG(Letters[i], 2, (IF p[1] = i THEN <<Obj("Query", <<>>, <<F("q", Null("Int"))>>)>> ELSE <<>>) \o Def(Kinds[p[i + 1]]))]
Garnished(p) == ByPick(p)
P == INSTANCE Picks

Init == P!Init
Next == P!Next

KindInv == (out # P!Pending /\ pick # <<>> /\ out.ok) =>
   LET ks == { Kinds[pick[i]] : i \in 2..(N + 1) } \ {"none"} IN
   /\ Cardinality(ks) <= 1 \/ ks \subseteq {"interface", "entity-interface", "interface-object"}
   /\ pick[1] <= N
   /\ Name = "join__Graph" => ks = {}
=============================================================================
