------------------------------ MODULE MC_C05 ------------------------------
(* Field sharing: how each subgraph declares the same field.               *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
How == IF Full THEN <<"absent", "plain", "share", "typeshare", "extshare", "key", "keynested", "external", "override-a", "override-b", "override-ghost", "progressive", "fed1", "typeexternal", "fed1key", "fed1external">>
       ELSE <<"absent", "plain", "share", "typeshare", "key", "external", "override-a", "override-b", "fed1">>
Containers == IF Full THEN <<"object", "root", "mutation", "interface">> ELSE <<"object", "root">>
Slots == N + 1
Width(k) == IF k = 1 THEN Len(Containers) ELSE Len(How)
L == <<"a", "b", "c", "d">>
Build(p) ==
  LET where == Containers[p[1]]
      n == CASE where = "root" -> "Query" [] where = "mutation" -> "Mutation" [] OTHER -> "P"
      sub(i) ==
        LET h == How[p[i + 1]]
            fed == IF h \in {"fed1", "fed1key", "fed1external"} THEN 1 ELSE 2
            dirs == CASE h = "share" -> <<D0("shareable")>>
                      [] h \in {"external", "fed1external"} -> <<D0("external")>>
                      [] h = "override-a" -> <<D1("override", "a")>>
                      [] h = "override-b" -> <<D1("override", "b")>>
                      [] h = "override-ghost" -> <<D1("override", "ghost")>>
                      [] h = "progressive" -> <<D2("override", "a", "percent(5)")>>
                      [] OTHER -> <<>>
            fty == IF h = "keynested" THEN Null("O") ELSE Null("Int")
            field == FD("f", Null("Int"), dirs)
            tdirs == CASE h = "typeshare" -> <<D0("shareable")>>
                       [] h = "typeexternal" -> <<D0("external")>>
                       [] h \in {"key", "fed1key"} -> <<Key(<<S0("f")>>)>>
                       [] h = "keynested" -> <<Key(<<S0("own" \o L[i]), S0("f")>>)>>
                       [] OTHER -> <<>>
            own == F("own" \o L[i], Null("Int"))
            def == IF where = "interface" THEN Iface(n, IF h \in {"typeshare", "typeexternal", "key", "keynested"} THEN <<>> ELSE tdirs, <<>>,
                                                   <<F("i", Null("Int"))>> \o (IF h = "absent" THEN <<>> ELSE <<IF h = "share" THEN F("f", Null("Int")) ELSE field>>))
                   ELSE Obj(n, IF h = "extshare" THEN <<>> ELSE tdirs, <<own>> \o (IF h = "absent" THEN <<>> ELSE IF h = "extshare" THEN <<>> ELSE <<field>>))
            ext == IF h # "extshare" THEN <<>> ELSE
                   IF where = "interface" THEN <<>> ELSE <<Obj(n, <<D0("shareable")>>, <<field>>)>>
            query == IF where = "root" THEN <<>> ELSE <<Obj("Query", <<>>, <<F("q" \o L[i], Null("Int"))>>)>>
        IN SG(L[i], fed, query \o <<def>> \o ext)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* C05 on its own terms: fully resolving definitions that nobody allows to be shared.
SharingInv ==
  P!Done /\ Containers[pick[1]] # "interface" =>
    LET hs == [i \in 1..N |-> How[pick[i + 1]]]
        plain == { i \in 1..N : hs[i] = "plain" }
        allow == { i \in 1..N : hs[i] \in {"share", "typeshare", "extshare", "key", "keynested", "fed1key"} }
    IN /\ Cardinality(plain) >= 2 /\ allow = {} => ~out.ok
       /\ Cardinality(plain) <= 1 => ~\E e \in out.errs : e.c = "sharing"
=============================================================================
