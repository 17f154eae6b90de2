------------------------------ MODULE MC_C08 ------------------------------
(* @requires, @provides and @external.                                     *)
EXTENDS Composition, Json
CONSTANTS Full
VARIABLES pick, out
TnA == SA("__typename", "(x: 1)")
TnS == S1("__typename", <<S0("id")>>)
Rq == <<<<>>, <<S0("x")>>, <<S0("x"), S0("y")>>, <<S1("org", <<S0("name")>>)>>, <<S1("org", <<S0("name"), S0("oid")>>), S0("x")>>, <<S0("nope")>>,
        <<S1("org", <<S0("nope")>>)>>, <<S1("x", <<S0("z")>>)>>, <<SA("fa", "(n: 1)")>>, <<S0("__typename")>>, <<S1("node", <<S0("id"), S1("... on P", <<S0("x")>>)>>)>>,
        <<S1("node", <<S1("... on P", <<S0("nope")>>)>>)>>, <<S1("un", <<S1("... on Org", <<S0("name")>>)>>)>>,
        <<TnA>>, <<TnS>>, <<S1("org", <<S0("__typename"), S0("name")>>)>>, <<S1("org", <<S0("name"), TnS>>)>>>>
X == SA("x", " @include(if: true)")
D(sel) == [sel EXCEPT !.a = " @skip(if: false)"]
Pv == <<<<>>, <<S0("x")>>, <<S0("y"), S0("x")>>, <<S1("org", <<S0("name")>>)>>, <<S0("nope")>>, <<S1("org", <<S0("nope")>>)>>, <<S0("w")>>, <<X>>, <<S0("y"), X>>, <<D(S1("org", <<S0("name")>>))>>, <<S1("org", <<S0("oid"), D(S0("name"))>>)>>, <<S1("node", <<S1("... on P", <<S0("x")>>), D(S0("id"))>>)>>, <<S1("node", <<D(S1("... on P", <<S0("x")>>))>>)>>, <<S0("x"), TnA>>, <<TnS>>, <<S0("__typename"), S0("y")>>>>
PvU == <<<<>>, <<S1("... on P", <<S0("x")>>)>>, <<S1("... on Org", <<S0("name")>>), S1("... on P", <<S0("x"), S0("y")>>)>>, <<S1("... on P", <<S0("nope")>>)>>, <<S1("... on Org", <<S0("name")>>), S1("... on P", <<S0("y"), X>>)>>, <<D(S1("... on P", <<S0("x")>>))>>>>
PvI == <<<<>>, <<S0("id")>>, <<S1("... on P", <<S0("x")>>)>>, <<S0("nope")>>, <<S1("... on P", <<S0("x")>>), D(S0("id"))>>>>
\* 1: how externals are marked; 2: requires; 3: what the provider returns and provides; 4: wrapping of the provider
Returns == <<"P", "U", "I", "Int">>
Pairs == [i \in 1..Len(Pv) |-> <<"P", Pv[i]>>] \o [i \in 1..Len(PvU) |-> <<"U", PvU[i]>>] \o [i \in 1..Len(PvI) |-> <<"I", PvI[i]>>] \o <<<<"Int", <<>>>>, <<"Int", <<S0("x")>>>>>>
Slots == 5
Width(k) == CASE k = 1 -> 6 [] k = 2 -> Len(Rq) [] k = 3 -> Len(Pairs) [] k = 4 -> (IF Full THEN 3 ELSE 1) [] k = 5 -> IF Full THEN 4 ELSE 2
Build(p) ==
  LET ext == p[1]     \* 1 none, 2 x, 3 x and y, 4 type extension, 5 x, y and the key field, 6 the requiring field too
      mark(f, c) == IF c THEN [f EXCEPT !.dirs = <<D0("external")>>] ELSE f
      sh == <<D0("shareable")>>
      rq == Rq[p[2]]
      pr == Pairs[p[3]]
      rty == CASE p[4] = 1 -> Null(pr[1]) [] p[4] = 2 -> T(pr[1], <<"N", "L">>) [] p[4] = 3 -> T(pr[1], <<"N", "L", "N">>)
      both == p[5] % 2 = 0
      fed == IF p[5] > 2 THEN 1 ELSE 2
      P1(i) == ObjI("P", <<Key(<<S0("id")>>)>>, <<"I">>, <<F("id", Req("ID"))>>
            \o <<FD("x", Null("Int"), sh), FD("y", Null("Int"), sh), FD("org", Null("Org"), sh), FA("fa", Null("Int"), <<Arg("n", Null("Int"))>>, sh), FD("node", Null("I"), sh), FD("un", Null("U"), sh)>>)
      s1 == IF fed = 1 THEN <<>> ELSE sh
      wdirs == (IF rq = <<>> THEN <<>> ELSE <<DS("requires", rq)>>) \o (IF ext = 6 THEN <<D0("external")>> ELSE <<>>)
      own == <<F("own", Null("Int")), FD("w", Null("Int"), wdirs)>>
      x == [F("x", Null("Int")) EXCEPT !.dirs = IF ext \in {2, 3, 5, 6} THEN <<D0("external")>> ELSE IF ext = 4 THEN <<>> ELSE s1]
      y == [F("y", Null("Int")) EXCEPT !.dirs = IF ext \in {3, 5} THEN <<D0("external")>> ELSE IF ext = 4 THEN <<>> ELSE s1]
      P2 == ObjI("P", <<Key(<<S0("id")>>)>>, <<"I">>,
              <<mark(F("id", Req("ID")), ext = 5)>> \o (IF ext = 4 THEN <<>> ELSE <<x, y>>)
              \o <<FD("org", Null("Org"), s1), FA("fa", Null("Int"), <<Arg("n", Null("Int"))>>, s1), FD("node", Null("I"), s1), FD("un", Null("U"), s1)>> \o own)
      P2x == IF ext = 4 THEN <<Obj("P", <<D0("external")>>, <<x, y>>)>> ELSE <<>>
      Org(d) == Obj("Org", <<>>, <<FD("oid", Req("ID"), d), FD("name", Null("String"), d)>>)
      I == Iface("I", <<>>, <<>>, <<F("id", Req("ID"))>>)
      U == Union("U", <<>>, <<"P", "Org">>)
      pdirs == IF pr[2] = <<>> THEN <<>> ELSE <<DS("provides", pr[2])>>
  IN <<SG("a", 2, <<Obj("Query", <<>>, <<F("qa", Null("P"))>>), P1(1), Org(sh), I, U>>),
       SG("b", fed, <<Obj("Query", <<>>, <<FD("qb", rty, pdirs)>> \o (IF both THEN <<FD("qb2", Null("P"), <<DS("provides", <<S0("y")>>)>>)>> ELSE <<>>)), P2>> \o P2x \o <<Org(s1), I, U>>)>>
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

SelInv ==
  P!Done =>
    LET rq == Rq[pick[2]]  pr == Pairs[pick[3]]
        bad == { <<TnA>>, <<TnS>>, <<S1("org", <<S0("name"), TnS>>)>>, <<S0("x"), TnA>>, <<S0("nope")>>, <<S1("org", <<S0("nope")>>)>>, <<S1("x", <<S0("z")>>)>>, <<S1("node", <<S1("... on P", <<S0("nope")>>)>>)>>, <<S1("... on P", <<S0("nope")>>)>> }
        own(f) == CHOOSE o \in P!FieldNamed("P", f).own : o.g = "b"
    IN /\ rq \in bad \/ pr[2] \in bad \/ HasDirective(pr[2]) => ~out.ok
       /\ out.ok => /\ own("w").req = SelText(rq)
                    /\ (CHOOSE o \in P!FieldNamed("Query", "qb").own : o.g = "b").prov = SelText(pr[2])
                    /\ (pick[1] \in {2, 3, 5} => own("x").ext) /\ (pick[1] \in {3, 5} => own("y").ext) /\ ~own("id").ext
                    /\ (pick[1] = 1 => ~own("x").ext /\ ~own("y").ext)
=============================================================================
