------------------------------ MODULE MC_C12 ------------------------------
(* Entity interfaces and interface objects.                                *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
\* per subgraph, how it defines the entity interface M:
Hows == <<"none", "iface", "iface-nokey", "iface-sku", "object", "object-nokey", "object-sku", "object-plain", "object-2keys">> \o (IF Full THEN <<"iface-nonres", "object-nonres", "iface-2keys", "iface-io">> ELSE <<>>)
\* per subgraph: its implementers of M (for interfaces) or its additional fields (for objects)
PerSub == 2
Slots == N * PerSub
Width(k) == IF (k - 1) % PerSub = 0 THEN Len(Hows) ELSE 4
L == <<"a", "b", "c">>
Build(p) ==
  LET sub(i) ==
        LET h == Hows[p[2 * i - 1]]
            c == p[2 * i]
            key == CASE h \in {"iface", "object", "object-plain", "iface-io"} -> <<Key(<<S0("id")>>)>>
                     [] h \in {"iface-sku", "object-sku"} -> <<Key(<<S0("sku")>>)>>
                     [] h \in {"iface-nonres", "object-nonres"} -> <<KeyR(<<S0("id")>>, "false")>>
                     [] h = "iface-2keys" -> <<Key(<<S0("id")>>), Key(<<S0("sku")>>)>>
                     [] h = "object-2keys" -> <<Key(<<S0("id")>>), KeyR(<<S0("sku")>>, "false")>>
                     [] OTHER -> <<>>
            ids == <<F("id", Req("ID")), F("sku", Null("String"))>>
            sids == <<FD("id", Req("ID"), <<D0("shareable")>>), FD("sku", Null("String"), <<D0("shareable")>>)>>
            isObj == h \in {"object", "object-nokey", "object-sku", "object-plain", "object-nonres", "object-2keys"}
            isIf == h \notin {"none"} /\ ~isObj
            extra == IF c \in {2, 4} THEN <<FD("rating", Null("Int"), <<D0("shareable")>>)>> ELSE IF c = 3 THEN <<F("extra" \o L[i], Null("Int"))>> ELSE <<>>
            implKey == IF c = 4 THEN <<Key(<<S0("sku")>>)>> ELSE key
        \* a subgraph may link the composite schemas specification next to federation
        IN SG(L[i], IF (SumOf(p) + i) % 3 = 0 THEN 4 ELSE 2,
             <<Obj("Query", <<>>, <<F("q" \o L[i], IF h = "none" THEN Null("Int") ELSE Null("M"))>>)>>
             \o (IF isIf THEN <<Iface("M", key \o (IF h = "iface-io" THEN <<D0("interfaceObject")>> ELSE <<>>), <<>>, ids)>>
                              \o <<ObjI("A", implKey, <<"M">>, sids)>>
                              \o (IF c \in {2, 3} THEN <<ObjI("B", key, <<"M">>, sids \o (IF c = 3 THEN <<FD("extra" \o L[N], Null("Int"), <<D0("shareable")>>)>> ELSE <<>>))>> ELSE <<>>)
                 ELSE IF isObj THEN <<Obj("M", key \o (IF h = "object-plain" THEN <<>> ELSE <<D0("interfaceObject")>>), sids \o extra)>>
                 ELSE <<>>))
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

EntityInterfaceInv ==
  P!Done =>
    LET hs == { Hows[pick[2 * i - 1]] : i \in 1..N }
        objs == { i \in 1..N : Hows[pick[2 * i - 1]] \in {"object", "object-nokey", "object-sku", "object-nonres", "object-2keys"} }
    IN /\ objs # {} /\ hs \cap {"iface", "iface-sku", "iface-nonres", "iface-2keys", "iface-io"} = {} => ~out.ok
       /\ out.ok /\ objs # {} => \A i \in objs : \A o \in {"A", "B"} :
            P!HasType(o) => (pick[2 * i] \in {2, 4} => P!HasField(o, "rating")) /\ (pick[2 * i] = 3 => P!HasField(o, "extra" \o L[i]))
       /\ out.ok /\ objs # {} => P!TypeNamed("M").k = "interface" /\ \A i \in objs : \A j \in P!TypeNamed("M").join : j.g = L[i] => j.io
=============================================================================
