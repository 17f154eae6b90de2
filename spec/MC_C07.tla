------------------------------ MODULE MC_C07 ------------------------------
(* Keys of an entity: which keys each subgraph declares, and which of the  *)
(* fields they name the subgraph defines.                                  *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
K(s) == Key(s)
Kid == K(<<S0("id")>>)
Ksku == K(<<S0("sku")>>)
Kboth == K(<<S0("id"), S0("sku")>>)
Korg == K(<<S1("org", <<S0("oid")>>)>>)
Korg2 == K(<<S0("id"), S1("org", <<S0("oid"), S0("name")>>)>>)
Kdeep == K(<<S1("org", <<S1("boss", <<S0("id")>>)>>)>>)
Kself == K(<<S1("parent", <<S0("id")>>)>>)
Kbad == K(<<S0("nope")>>)
Kbad2 == K(<<S1("org", <<S0("nope")>>)>>)
Kbad3 == K(<<S0("id"), S1("org", <<S1("boss", <<S0("name")>>)>>)>>)
Kleaf == K(<<S1("color", <<S0("x")>>)>>)
Kleaf2 == K(<<S1("id", <<S0("x")>>)>>)
NonRes(k) == KeyR(k.s, "false")
Singles == <<Kid, Ksku, Kboth, Korg, Korg2, Kdeep, Kself, Kbad, Kbad2, Kbad3, Kleaf, Kleaf2>>
Lists == <<<<>>, <<NonRes(Kid)>>, <<NonRes(Korg)>>, <<Kid, Ksku>>, <<Ksku, NonRes(Kid)>>, <<Kid, Korg, Kboth>>, <<Kid, NonRes(Kid)>>, <<NonRes(Kid), NonRes(Ksku)>>, <<Kid, Kid>>, <<Kid, Kbad>>>>
         \o [i \in DOMAIN Singles |-> <<Singles[i]>>]
Missing == IF Full THEN <<"", "sku", "oid", "boss", "org">> ELSE <<"", "sku", "oid">>
\* per subgraph: key list, missing field, and whether the subgraph is a v1 one
Slots == 3 * N
Width(k) == CASE (k - 1) % 3 = 0 -> Len(Lists) [] (k - 1) % 3 = 1 -> Len(Missing) [] (k - 1) % 3 = 2 -> IF Full \/ k > 3 * (N - 1) THEN 2 ELSE 1
L == <<"a", "b", "c">>
Build(p) ==
  LET sub(i) ==
        LET ks == Lists[p[3 * i - 2]]
            miss == Missing[p[3 * i - 1]]
            fed == IF p[3 * i] = 2 THEN 1 ELSE 2
            sh == IF fed = 1 THEN <<>> ELSE <<D0("shareable")>>
            keep(fs) == SelectSeq(fs, LAMBDA f : f.n # miss)
        IN SG(L[i], fed,
             <<Obj("Query", <<>>, <<F("q" \o L[i], Null("P"))>>),
               Obj("P", ks, keep(<<FD("id", Req("ID"), sh), FD("sku", Null("String"), sh), FD("org", Null("Org"), sh), FD("parent", Null("P"), sh), FD("color", Null("Color"), sh),
                                   F("own" \o L[i], Null("Int"))>>)),
               Obj("Org", <<>>, keep(<<FD("oid", Req("ID"), sh), FD("name", Null("String"), sh), FD("boss", Null("Boss"), sh)>>)),
               Obj("Boss", <<>>, <<FD("id", Req("ID"), sh)>>), Enum("Color", <<>>, <<V("RED")>>)>>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

KeyInv ==
  P!Done =>
    LET ks(i) == Ran(Lists[pick[3 * i - 2]])
        miss(i) == Missing[pick[3 * i - 1]]
        bad(i) == \/ ks(i) \cap {Kbad, Kbad2, Kbad3, Kleaf, Kleaf2} # {}
                  \/ miss(i) = "sku" /\ (Ksku \in ks(i) \/ Kboth \in ks(i) \/ NonRes(Ksku) \in ks(i))
                  \/ miss(i) = "oid" /\ ks(i) \cap {Korg, Korg2, NonRes(Korg)} # {}
                  \/ miss(i) = "boss" /\ Kdeep \in ks(i)
                  \/ miss(i) = "org" /\ ks(i) \cap {Korg, Korg2, NonRes(Korg), Kdeep} # {}
    IN /\ (\E i \in 1..N : bad(i)) => ~out.ok
       /\ out.ok => \A i \in 1..N :
            { [k |-> j.key, r |-> j.res] : j \in { x \in P!TypeNamed("P").join : x.g = L[i] /\ x.key # "" } }
              = { [k |-> SelText(x.s), r |-> x.a[1] = "true"] : x \in ks(i) }
=============================================================================
