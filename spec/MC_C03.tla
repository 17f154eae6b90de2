------------------------------ MODULE MC_C03 ------------------------------
(* Enums: value sets and usages in every subgraph.                         *)
EXTENDS Composition, Json
CONSTANTS N, Values, Full
VARIABLES pick, out
VNames == <<"A", "B", "C">>
RECURSIVE Subsets(_)
Subsets(k) == IF k = 0 THEN <<<<>>>> ELSE LET r == Subsets(k - 1) IN r \o [i \in DOMAIN r |-> r[i] \o <<V(VNames[k])>>]
ValueSets == Subsets(Values)          \* the first is empty: not defined there
Usages == IF Full THEN <<"none", "arg", "infield", "out", "outlist", "iarg", "iout", "nestedin", "hiddenarg", "hiddenin", "hiddenout", "mutationarg", "requiredarg2">> ELSE <<"none", "arg", "infield", "outlist">>
Slots == 2 * N
Width(k) == IF k <= N THEN Len(ValueSets) ELSE Len(Usages)
L == <<"a", "b", "c", "d">>
Build(p) ==
  LET sub(i) ==
        LET vs == ValueSets[p[i]]
            use == Usages[p[N + i]]
            base == F("q" \o L[i], Null("Int"))
            used == vs # <<>>     \* a subgraph can only use what it defines
            e == T("E", <<"N", "L">>)
        IN SG(L[i], 2, (IF vs = <<>> THEN <<>> ELSE <<Enum("E", <<>>, vs)>>) \o
             IF ~used THEN <<Obj("Query", <<>>, <<base>>)>>
             ELSE CASE use = "none" -> <<Obj("Query", <<>>, <<base>>)>>
               [] use = "arg" -> <<Obj("Query", <<>>, <<base, FA("u" \o L[i], Null("Int"), <<Arg("e", Req("E"))>>, <<>>)>>)>>
               [] use = "infield" -> <<Obj("Query", <<>>, <<base, FA("u" \o L[i], Null("Int"), <<Arg("e", Null("In" \o L[i]))>>, <<>>)>>), Input("In" \o L[i], <<>>, <<InF("e", e, <<>>, <<>>)>>)>>
               [] use = "nestedin" -> <<Obj("Query", <<>>, <<base>>), Input("In" \o L[i], <<>>, <<InF("e", e, <<>>, <<>>)>>)>>
               [] use = "out" -> <<Obj("Query", <<>>, <<base, F("u" \o L[i], Null("E"))>>)>>
               [] use = "outlist" -> <<Obj("Query", <<>>, <<base, F("u" \o L[i], Null("O" \o L[i]))>>), Obj("O" \o L[i], <<>>, <<F("e", e)>>)>>
               [] use = "iarg" -> <<Obj("Query", <<>>, <<base>>), Iface("I" \o L[i], <<>>, <<>>, <<FA("f", Null("Int"), <<Arg("e", Null("E"))>>, <<>>)>>)>>
               [] use = "hiddenarg" -> <<Obj("Query", <<>>, <<base, FA("u" \o L[i], Null("Int"), <<ArgD("e", Null("E"), <<>>, <<D0("inaccessible")>>)>>, <<>>)>>)>>
               [] use = "hiddenin" -> <<Obj("Query", <<>>, <<base>>), Input("In" \o L[i], <<D0("inaccessible")>>, <<InF("e", e, <<>>, <<D0("inaccessible")>>)>>)>>
               [] use = "hiddenout" -> <<Obj("Query", <<>>, <<base, FD("u" \o L[i], Null("E"), <<D0("inaccessible")>>)>>)>>
               [] use = "mutationarg" -> <<Obj("Query", <<>>, <<base>>), Obj("Mutation", <<>>, <<FA("u" \o L[i], Null("Int"), <<Arg("x", Null("Int")), Arg("e", T("E", <<"L", "N", "L">>))>>, <<>>)>>)>>
               [] use = "requiredarg2" -> <<Obj("Query", <<>>, <<base>>), Obj("O" \o L[i], <<>>, <<F("e", Null("Int")), FA("f", Null("Int"), <<Arg("e", Req("E"))>>, <<D0("inaccessible")>>)>>)>>
               [] use = "iout" -> <<Obj("Query", <<>>, <<base>>), Iface("I" \o L[i], <<>>, <<>>, <<F("f", Null("E"))>>)>>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

MergeInv ==
  P!Done =>
    LET who == { i \in 1..N : ValueSets[pick[i]] # <<>> }
        set(i) == Names(ValueSets[pick[i]])
        uses == { Usages[pick[N + i]] : i \in who }
        asIn == uses \cap {"arg", "infield", "iarg", "nestedin", "hiddenarg", "hiddenin", "mutationarg", "requiredarg2"} # {}
        asOut == uses \cap {"out", "outlist", "iout", "hiddenout"} # {}
        all == UNION { set(i) : i \in who }
        common == { v \in all : \A i \in who : v \in set(i) }
        vals == { v.n : v \in P!TypeNamed("E").vals }
    IN who # {} =>
       /\ asIn /\ asOut => (out.ok <=> all = common)
       /\ asIn /\ ~asOut => (out.ok <=> common # {}) /\ (out.ok => vals = common)
       /\ ~asIn => out.ok /\ vals = all
       /\ out.ok => \A v \in P!TypeNamed("E").vals : v.own = { L[i] : i \in { j \in who : v.n \in set(j) } }
=============================================================================
