------------------------------ MODULE MC_C10 ------------------------------
(* One element, and what directives each subgraph puts on it.              *)
EXTENDS Composition, Json
CONSTANTS N, Pairs
VARIABLES pick, out
Sites == <<"object", "field", "interface", "ifield", "arg", "enum", "value", "input", "infield", "union", "scalar", "rootfield">>
Sets ==
  <<<<>>, <<D1("tag", "t1")>>, <<D1("tag", "t2"), D1("tag", "t1")>>, <<D0("inaccessible")>>, <<D0("authenticated")>>,
    <<Scopes(<<"r">>)>>, <<Scopes(<<"r", "w">>)>>, <<Policy(<<"p">>)>>, <<Policy(<<"p", "q">>), D0("authenticated")>>, <<D0("deprecated")>>, <<D1("deprecated", "old")>>,
    <<D1("deprecated", "older")>>, <<Cost(1)>>, <<Cost(5)>>, <<D0("authenticated"), Scopes(<<"r">>), D1("tag", "t3")>>>>
\* where each directive may stand
Allowed(site, d) ==
  CASE d = "tag" -> TRUE
    [] d = "inaccessible" -> TRUE
    [] d \in {"authenticated", "requiresScopes", "policy"} -> site \in {"object", "field", "interface", "ifield", "enum", "scalar", "rootfield"}
    [] d = "deprecated" -> site \in {"field", "ifield", "arg", "value", "infield", "rootfield"}
    [] d = "cost" -> site \in {"arg", "enum", "field", "infield", "object", "scalar", "rootfield"}
Ok(site, s) == \A i \in DOMAIN s : Allowed(site, s[i].d)
Slots == N + 1
Width(k) == IF k = 1 THEN Len(Sites) ELSE Len(Sets)
L == <<"a", "b", "c", "d">>
Build(p) ==
  LET site == Sites[p[1]]
      at(s, i) == IF s = site THEN SelectSeq(Sets[p[i + 1]], LAMBDA d : Allowed(site, d.d)) ELSE <<>>
      sh == <<D0("shareable")>>
      sub(i) == SG(L[i], 2, <<
          Obj("Query", <<>>, <<F("only" \o L[i], Null("P")), FD("shared", Null("Int"), sh \o at("rootfield", i))>>),
          ObjI("P", at("object", i), <<"I">>, <<FD("id", Null("ID"), sh), FA("x", Null("Int"), <<ArgD("a", Null("Int"), <<>>, at("arg", i)), Arg("e", Null("E")), Arg("n", Null("N"))>>, sh \o at("field", i))>>),
          Iface("I", at("interface", i), <<>>, <<FD("id", Null("ID"), at("ifield", i))>>),
          Enum("E", at("enum", i), <<VD("A", at("value", i)), V("B")>>),
          Input("N", at("input", i), <<InF("i", Null("Int"), <<>>, at("infield", i)), InF("j", Null("Int"), <<>>, <<>>)>>),
          Union("U", at("union", i), <<"P">>),
          Scalar("S", at("scalar", i)) >>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

DirInv ==
  P!Done /\ out.ok =>
    LET site == Sites[pick[1]]
        ds(i) == SelectSeq(Sets[pick[i + 1]], LAMBDA d : Allowed(site, d.d))
        all == UNION { Ran(ds(i)) : i \in 1..N }
        m == CASE site = "object" -> P!TypeNamed("P").dirs
               [] site = "field" -> P!FieldNamed("P", "x").dirs
               [] site = "interface" -> P!TypeNamed("I").dirs
               [] site = "ifield" -> P!FieldNamed("I", "id").dirs
               [] site = "arg" -> (CHOOSE a \in P!FieldNamed("P", "x").args : a.n = "a").dirs
               [] site = "enum" -> P!TypeNamed("E").dirs
               [] site = "value" -> (CHOOSE v \in P!TypeNamed("E").vals : v.n = "A").dirs
               [] site = "input" -> P!TypeNamed("N").dirs
               [] site = "infield" -> (CHOOSE v \in P!TypeNamed("N").infields : v.n = "i").dirs
               [] site = "union" -> P!TypeNamed("U").dirs
               [] site = "scalar" -> P!TypeNamed("S").dirs
               [] site = "rootfield" -> P!FieldNamed("Query", "shared").dirs
    IN /\ m.tags = { d.a[1] : d \in { x \in all : x.d = "tag" } }
       /\ m.scopes = { d.l : d \in { x \in all : x.d = "requiresScopes" } }
       /\ m.policies = { d.l : d \in { x \in all : x.d = "policy" } }
       /\ m.auth = (\E d \in all : d.d = "authenticated") /\ m.inacc = (\E d \in all : d.d = "inaccessible") /\ m.depr = (\E d \in all : d.d = "deprecated")
       /\ \A d \in all : d.d = "cost" => \E c \in m.cost : c >= d.c
=============================================================================
