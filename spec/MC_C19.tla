------------------------------ MODULE MC_C19 ------------------------------
(* The directives of the composite schemas specification: lookups, derived *)
(* fields, required arguments, internal elements, per subgraph.            *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
L == <<"a", "b", "c">>
Sites == <<"lookup", "require", "internal", "derive", "types">>
NChoices == 24
Slots == N + 1
Width(k) == IF k = 1 THEN Len(Sites) ELSE NChoices
Rq(x) == D1("require", x)
Is(x) == D1("is", x)
sh == <<D0("shareable")>>
In == <<D0("internal")>>
If(c, x) == IF c THEN x ELSE <<>>

\* how the subgraph relates to the specification: alone, next to federation, or not at all
FedOf(site, c) == CASE site = "lookup" -> <<3, 4, 2>>[1 + (c % 3)]
                    [] site = "internal" -> IF (c % 6) = 5 THEN 2 ELSE 3 + (c % 2)
                    [] OTHER -> 3 + (c % 2)

Lookup(i, c) ==
  LET v == c \div 3     \* 0..7
      t == IF v \in {2, 7} THEN Req("P") ELSE IF v = 3 THEN T("P", <<"N", "L">>) ELSE Null("P")
      dirs == (IF v = 0 THEN <<>> ELSE <<D0("lookup")>>) \o (IF v \in {5, 6} THEN In ELSE <<>>)
      args == CASE v = 3 -> <<ArgD("ids", T("ID", <<"N", "L", "N">>), <<>>, <<Is("[id]")>>)>>
                [] v \in {4, 6} -> <<ArgD("key", Req("ID"), <<>>, <<Is("id")>>)>>
                [] v = 7 -> <<ArgD("key", Req("K"), <<>>, <<Is(IF c % 3 = 1 THEN "{ id }" ELSE "{ id } | { sku }")>>)>>
                [] OTHER -> <<Arg("id", Req("ID"))>>
      n == IF v = 1 THEN "plant" ELSE "plant" \o L[i]
  IN << Obj("Query", <<>>, <<F("all" \o L[i], Null("P")), FA(n, t, args, dirs \o If(v = 1, sh))>>),
        Obj("P", <<Key(<<S0("id")>>)>> \o If(v \in {2, 7}, <<Key(<<S0("sku")>>)>>), <<F("id", Req("ID")), FD("sku", Null("ID"), sh)>>) >>
     \o If(v = 7, <<Input("K", <<>>, <<InF("id", Null("ID"), <<>>, <<>>)>> \o If(c % 3 # 1, <<InF("sku", Null("ID"), <<>>, <<>>)>>))>>)

\* the type of the field and what its arguments require
RTypes == <<T("Int", <<"L">>), T("Int", <<"N", "L", "N">>), Null("Int"), T("Int", <<"L", "N", "L">>)>>
Require(i, c) ==
  LET t == RTypes[1 + (c % 4)]
      v == c \div 4    \* 0..5
      args == CASE v = 0 -> <<Arg("n", Null("Int"))>>
                [] v = 1 -> <<ArgD("n", Null("Int"), <<>>, <<Rq("y")>>)>>
                [] v = 2 -> <<ArgD("n", T("Int", <<"L">>), <<>>, <<Rq(" [y]")>>)>>
                [] v = 3 -> <<ArgD("n", Null("Int"), <<"3">>, <<Rq("y")>>), Arg("m", Null("Int"))>>
                [] v = 4 -> <<Arg("m", Null("Int")), ArgD("n", T("Int", <<"L">>), <<>>, <<Rq("[y { z }]")>>), ArgD("o", Null("Int"), <<>>, <<Rq("{ y: y }")>>)>>
                [] v = 5 -> <<>>
  IN << Obj("Query", <<>>, <<F("q" \o L[i], Null("P"))>>),
        Obj("P", <<Key(<<S0("id")>>)>>, <<F("id", Req("ID")), FA("x", t, args, sh), FA("own" \o L[i], T("Int", <<"L">>), args, <<>>)>>) >>

Internal_(i, c) ==
  LET fld == c % 3        \* 0 absent, 1 plain, 2 internal
      v == c \div 3       \* 0..7
      fed == FedOf("internal", c)
      in == fed # 2 /\ fld = 2
      ov == IF v = 5 THEN <<D1("override", L[(i % N) + 1])>> ELSE <<>>
      fd == If(in, In) \o If(v \in {1, 4}, sh) \o ov
  IN << Obj("Query", <<>>, <<F("q" \o L[i], Null("P"))>> \o If(fld # 0, <<FD("f", Null("Int"), fd)>>) \o <<FD("r" \o L[i], Null("R"), If(fed # 2, In))>>),
        Obj("P", If(v \in {2, 4}, <<Key(<<S0("id")>>)>>), <<FD("id", Req("ID"), sh)>> \o If(fld # 0, <<FD("x", Null("Int"), fd)>>)),
        ObjI("R", If(v \in {0, 1, 3} /\ fed # 2, In), If(v = 6, <<"I">>), <<FD("w", Null("Int"), sh)>>) >>
     \o If(v = 6, <<Iface("I", <<>>, <<>>, <<FD("w", Null("Int"), If(in, In))>>)>>)
     \o If(v \in {3, 7}, <<Obj("Mutation", <<>>, <<FD("m", Null("Int"), If(in, In) \o sh)>>)>>)

Derive(i, c) ==
  LET v == c % 4
      t == IF c \div 4 = 1 THEN Req("Pt") ELSE IF c \div 4 = 2 THEN T("Pt", <<"L">>) ELSE Null("Pt")
      dirs == CASE v = 0 -> <<>> [] v = 1 -> <<D0("derive")>> [] v = 2 -> <<D0("derive"), Is("{ id: cat_id }")>> [] v = 3 -> <<D0("derive"), Is("{ id: cat_id }"), D0("internal")>>
      n == IF c \div 4 \in {3, 5} THEN "cat" ELSE "cat" \o L[i]
  IN << Obj("Query", <<>>, <<F("p" \o L[i], Null("P"))>>),
        Obj("P", <<>>, <<FD("cat_id", Req("ID"), sh), FD(n, t, dirs \o If(c \div 4 = 3, sh))>>),
        Obj("Pt", <<Key(<<S0("id")>>)>>, <<F("id", Req("ID"))>>) >>

\* what else the specification shares with federation
Types(i, c) ==
  LET v == c \div 2     \* 0..11
      s(k) == If((v % 4) = k, sh)
  IN << Obj("Query", If(v = 9 /\ i = 1, <<D0("inaccessible")>>), <<FD("k" \o L[i], Null("P"), If(v = 4, <<DS("provides", <<S0("x")>>)>>) \o If(v = 8, <<DS("provides", <<S0("nope")>>)>>))>>),
        Obj("P", If(v # 5, <<Key(<<S0("id")>>)>>) \o s(1), <<F("id", Req("ID"))>>
              \o <<FD("x", Null("Int"), s(2) \o s(0) \o If(v = 3, <<D0("external")>>) \o If(v = 6, <<D1("override", L[(i % N) + 1])>>) \o If(v = 7, <<D0("inaccessible")>>))>>
              \o If(v = 10, <<FD("z" \o L[i], Null("Int"), <<DS("requires", <<S0("x")>>)>>)>>)) >>

Build(p) ==
  LET site == Sites[p[1]] IN
  [i \in 1..N |-> LET c == p[i + 1] - 1 IN
     SG(L[i], FedOf(site, c), CASE site = "lookup" -> Lookup(i, c) [] site = "require" -> Require(i, c) [] site = "internal" -> Internal_(i, c)
                                [] site = "derive" -> Derive(i, c) [] site = "types" -> Types(i, c))]
Garnished(p) == IF p[1] = 2 THEN 0 ELSE p[2] % 3
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* On its own terms: every composite directive of a linking subgraph is there once, attributed; nothing of the others.
CompositeInv ==
  P!Done /\ out.ok =>
    LET sgs == Build(pick)
        who(d) == { i \in 1..N : sgs[i].fed >= 3 }
        q == P!TypeNamed("Query") IN
    /\ \A x \in out.types : \A f \in x.t.fields : \A c \in f.dirs.comp : \E i \in who("") : c.g = L[i]
    /\ Sites[pick[1]] = "lookup" =>
         \A i \in 1..N : \A f \in Ran(sgs[i].types[1].fields) :
           (Has(f.dirs, "lookup") /\ sgs[i].fed >= 3) = (\E g \in q.fields : g.n = f.n /\ [d |-> "lookup", g |-> L[i], f |-> ""] \in g.dirs.comp)
    /\ \A x \in Api(out) : \A f \in x.fields : \A a \in f.args :
         ~\E i \in who("") : \E t \in Ran(sgs[i].types) : t.n = x.n /\ \E g \in Ran(t.fields) : g.n = f.n /\ \E b \in Ran(g.args) : b.n = a.n /\ Has(b.dirs, "require")
    /\ \A i \in 1..N : sgs[i].fed = 3 => \A j \in P!TypeNamed("P").join : j.g = L[i] => j.key = "" \/ ~j.res
=============================================================================
