------------------------------ MODULE MC_C13 ------------------------------
(* Composition does not depend on the order of ingestion: systems of        *)
(* subgraphs drawn from a pool of shapes that interact (conflicting types,  *)
(* overrides, entity interfaces, enums, ...), each composed in every order  *)
(* of the subgraphs, and with the definitions and the fields of the         *)
(* subgraphs reversed.                                                      *)
EXTENDS Composition, Json
CONSTANTS N, From, To
VARIABLES pick, out

Sh == D0("shareable")
PId == FD("id", Req("ID"), <<Sh>>)
Pool == <<
  <<Obj("P", <<>>, <<PId, FD("x", Req("Int"), <<Sh>>), FD("y", Null("Int"), <<Sh>>)>>), Enum("E", <<>>, <<V("A"), V("B")>>), Obj("Query", <<>>, <<F("e", Null("E"))>>)>>,
  <<Obj("P", <<D1("tag", "t1")>>, <<PId, FD("x", Null("Int"), <<Sh, D1("deprecated", "r1"), D1("tag", "t2"), Cost(3)>>)>>), Enum("E", <<>>, <<V("B"), V("C")>>)>>,
  <<Obj("P", <<>>, <<PId, FD("x", Null("String"), <<Sh>>)>>)>>,
  <<Obj("P", <<Key(<<S0("id")>>)>>, <<F("id", Req("ID")), FD("x", Null("Int"), <<Cost(5)>>)>>)>>,
  <<Obj("P", <<>>, <<PId, FD("x", Null("Int"), <<Sh, D1("override", "a")>>)>>)>>,
  <<Obj("P", <<>>, <<PId, FD("x", Null("Int"), <<Sh, D1("override", "b")>>), FD("z", Req("P"), <<Sh>>)>>)>>,
  <<Iface("P", <<>>, <<>>, <<F("id", Req("ID"))>>)>>,
  <<Obj("P", <<>>, <<PId, FA("x", Null("Int"), <<ArgD("u", Null("Int"), <<"1">>, <<>>), Arg("v", Req("Int"))>>, <<Sh>>)>>)>>,
  <<Obj("P", <<>>, <<PId, FA("x", Null("Int"), <<ArgD("u", Req("Int"), <<>>, <<D1("tag", "u")>>)>>, <<Sh>>)>>)>>,
  <<Obj("P", <<>>, <<PId, FA("x", Null("Int"), <<ArgD("u", Null("Int"), <<"2">>, <<>>)>>, <<Sh>>)>>)>>,
  <<Enum("P", <<>>, <<V("A")>>), Obj("Query", <<>>, <<F("ep", Null("P"))>>)>>,
  <<Iface("M", <<Key(<<S0("id")>>)>>, <<>>, <<F("id", Req("ID"))>>), ObjI("A", <<Key(<<S0("id")>>)>>, <<"M">>, <<F("id", Req("ID"))>>)>>,
  <<Obj("M", <<Key(<<S0("id")>>), D0("interfaceObject")>>, <<FD("id", Req("ID"), <<Sh>>), FD("rating", Null("Int"), <<Sh>>)>>)>>,
  <<Iface("M", <<>>, <<>>, <<F("id", Req("ID"))>>), ObjI("A", <<Key(<<S0("id")>>)>>, <<"M">>, <<F("id", Req("ID"))>>)>>,
  <<Iface("I", <<>>, <<>>, <<F("id", Req("ID"))>>), ObjI("P", <<>>, <<"I">>, <<PId>>)>>,
  <<Iface("I", <<D1("tag", "i")>>, <<>>, <<F("id", Null("ID")), F("x", Null("Int"))>>), ObjI("Q", <<>>, <<"I">>, <<FD("id", Req("ID"), <<Sh>>), FD("x", Null("Int"), <<Sh>>)>>)>>,
  <<Input("N", <<>>, <<InF("i", Req("Int"), <<>>, <<>>), InF("j", Null("Int"), <<"3">>, <<>>)>>), Obj("Query", <<>>, <<FA("n", Null("Int"), <<Arg("n", Null("N"))>>, <<Sh>>)>>)>>,
  <<Input("N", <<>>, <<InF("i", Null("Int"), <<>>, <<D1("tag", "n")>>), InF("k", Null("Int"), <<>>, <<>>)>>), Obj("Query", <<>>, <<FA("n", Null("Int"), <<ArgD("n", Req("N"), <<>>, <<>>)>>, <<Sh>>)>>)>>,
  <<Obj("P", <<>>, <<PId>>), Obj("Q", <<>>, <<FD("id", Req("ID"), <<Sh>>)>>), Union("U", <<>>, <<"P", "Q">>), Obj("Query", <<>>, <<FD("u", Null("U"), <<Sh>>)>>)>>,
  <<Obj("Q", <<>>, <<FD("id", Req("ID"), <<Sh>>)>>), Union("U", <<D1("tag", "u")>>, <<"Q">>), Obj("Query", <<>>, <<FD("u", Req("U"), <<Sh, D0("authenticated")>>)>>)>>,
  <<Enum("E", <<>>, <<V("B")>>), Obj("Query", <<>>, <<FA("ei", Null("Int"), <<Arg("e", Null("E"))>>, <<Sh>>)>>)>>,
  <<Obj("P", <<>>, <<PId>>), Obj("P", <<Sh, D0("inaccessible")>>, <<F("x", Null("Int"))>>)>>,
  <<Obj("P", <<>>, <<PId, FD("x", Null("Int"), <<D0("external")>>), FD("y", Null("Int"), <<Sh, Scopes(<<"r1">>), Policy(<<"p">>)>>)>>)>>,
  <<Obj("P", <<>>, <<PId, FD("x", Null("Int"), <<Sh, D0("inaccessible")>>), FD("y", Null("Int"), <<Sh, Scopes(<<"r1", "r2">>), D1("deprecated", "r2")>>)>>)>> >>
K == To - From + 1
Combos == SetToSeq({ c \in [1..N -> From..To] : \A i \in 1..(N - 1) : c[i] <= c[i + 1] })
Perms == SetToSeq(Permutations(1..N))
Slots == 3
Width(k) == CASE k = 1 -> Len(Combos) [] k = 2 -> Len(Perms) [] OTHER -> 2
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
L == <<"a", "b", "c">>
\* extensions follow their definition in this module's notation, so only the fields of the pieces are reversed there
RevTypes(ts) ==
  LET r == Rev(ts) IN
  [i \in 1..Len(r) |-> [r[i] EXCEPT !.fields = Rev(@), !.vals = Rev(@), !.members = Rev(@), !.dirs = Rev(@)]]
System(c) ==
  [i \in 1..N |-> SG(L[i], 2, <<Obj("Query", <<>>, <<F("q" \o L[i], Null("Int"))>>)>> \o Pool[c[i]])]
Build(p) ==
  LET base == System(Combos[p[1]])
      pm == Perms[p[2]]
      s == [i \in 1..N |-> base[pm[i]]]
  IN IF p[3] = 1 THEN s ELSE [i \in 1..N |-> [s[i] EXCEPT !.types = RevTypes(@)]]
Garnished(p) == LET h == p[1] % 4 IN h
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* what may depend on the order: which deprecation reason is kept
NoReason(g) == [g EXCEPT !.reasons = {}]
Strip(t) == [t EXCEPT !.dirs = NoReason(@), !.altjoin = {},
  !.fields = { [f EXCEPT !.dirs = NoReason(@), !.args = { [a EXCEPT !.dirs = NoReason(@)] : a \in f.args }] : f \in t.fields },
  !.infields = { [f EXCEPT !.dirs = NoReason(@)] : f \in t.infields },
  !.vals = { [v EXCEPT !.dirs = NoReason(@)] : v \in t.vals }]
Canon(o) == [ok |-> o.ok, types |-> { [n |-> x.n, t |-> Strip(x.t)] : x \in o.types }]
OrderInv == P!Done => Canon(out) = Canon(Compose(System(Combos[pick[1]])))
=============================================================================
