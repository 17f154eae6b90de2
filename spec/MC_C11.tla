------------------------------ MODULE MC_C11 ------------------------------
(* Interfaces: who defines which of their fields, and who implements them. *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
\* per subgraph: interface I's fields ({}, id, id+x, x+id+y), interface J implements I?, object P's shape, object Q's shape
IFields == <<<<>>, <<"id">>, <<"id", "x">>, <<"id", "y">>>> \o (IF Full THEN <<<<"x">>, <<"y">>>> ELSE <<>>)
Shapes == <<"absent", "plain-id", "impl-id", "impl-idx", "impl-J", "impl-idxy">> \o (IF Full THEN <<"impl-x", "plain-x">> ELSE <<>>)
PerSub == 3
Slots == N * PerSub
Width(k) == CASE (k - 1) % PerSub = 0 -> Len(IFields) [] (k - 1) % PerSub = 1 -> Len(Shapes) [] (k - 1) % PerSub = 2 -> 3
L == <<"a", "b", "c">>
FieldsOf(s) == CASE s \in {"plain-id", "impl-id"} -> <<"id">> [] s \in {"impl-idx", "impl-J"} -> <<"id", "x">> [] s \in {"impl-x", "plain-x"} -> <<"x">> [] s = "impl-idxy" -> <<"id", "x", "y">> [] OTHER -> <<>>
Build(p) ==
  LET sub(i) ==
        LET ifs == IFields[p[(i - 1) * PerSub + 1]]
            sh == Shapes[p[(i - 1) * PerSub + 2]]
            j == p[(i - 1) * PerSub + 3]      \* 1: no J, 2: J {id}, 3: J implements I {id x}
            impl == IF sh \in {"absent", "plain-id", "plain-x"} THEN <<>>
                    ELSE IF sh = "impl-J" THEN (IF j > 1 THEN <<"J">> ELSE <<>>) \o (IF ifs # <<>> THEN <<"I">> ELSE <<>>)
                    ELSE IF ifs # <<>> THEN <<"I">> ELSE <<>>
            fs == FieldsOf(sh)
        IN SG(L[i], 2,
             <<Obj("Query", <<>>, <<F("q" \o L[i], Null("Int"))>>)>>
             \o (IF ifs = <<>> THEN <<>> ELSE <<Iface("I", <<>>, <<>>, [k \in DOMAIN ifs |-> F(ifs[k], Null("Int"))])>>)
             \o (IF j = 1 THEN <<>> ELSE <<Iface("J", <<>>, IF j = 3 /\ ifs # <<>> THEN <<"I">> ELSE <<>>, <<F("id", Null("Int"))>> \o (IF j = 3 THEN <<F("x", Null("Int"))>> ELSE <<>>))>>)
             \o (IF sh = "absent" THEN <<>> ELSE <<ObjI("P", <<>>, impl, [k \in DOMAIN fs |-> FD(fs[k], Null("Int"), <<D0("shareable")>>)])>>))
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* C11 on its own terms
ImplInv ==
  P!Done /\ out.ok =>
    \A x \in out.types : \A m \in x.t.impl :
      P!HasType(m.i) => \A f \in P!TypeNamed(m.i).fields : \E g \in x.t.fields : g.n = f.n
=============================================================================
