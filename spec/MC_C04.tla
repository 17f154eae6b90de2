------------------------------ MODULE MC_C04 ------------------------------
(* Who defines what: types, fields, implements clauses and union members   *)
(* distributed over the subgraphs in every way.                            *)
EXTENDS Composition, Json
CONSTANTS N, Entity, FieldSets
VARIABLES pick, out
\* per subgraph: fields of P (1 none .. FieldSets, at most 8 = {x,y,z}), implements I, members of U, Query field
PerSub == 4
Slots == N * PerSub
Width(k) == LET r == (k - 1) % PerSub IN CASE r = 0 -> FieldSets [] r = 1 -> 2 [] r = 2 -> 4 [] r = 3 -> 2
L == <<"a", "b", "c", "d">>
Bit(c, b) == ((c - 1) \div b) % 2 = 1
Build(p) ==
  LET c(i, r) == p[(i - 1) * PerSub + r + 1]
      sub(i) ==
        LET fs == c(i, 0)
            hasP == fs > 1
            members == c(i, 2)
            impl == c(i, 1) = 2
            needP == hasP \/ Bit(members, 1) \/ impl
            sh == <<D0("shareable")>>
            fields == (IF Entity \/ fs = 1 THEN <<FD("id", Req("ID"), IF Entity THEN <<>> ELSE sh)>> ELSE <<>>)
                      \o (IF Bit(fs, 1) THEN <<FD("x", Null("Int"), sh)>> ELSE <<>>)
                      \o (IF Bit(fs, 2) THEN <<FD("y", Null("String"), sh)>> ELSE <<>>)
                      \o (IF Bit(fs, 4) THEN <<FD("z", Null("S"), sh)>> ELSE <<>>)
            P0 == TypeOf("object", "P", IF Entity THEN <<Key(<<S0("id")>>)>> ELSE <<>>, IF impl THEN <<"I">> ELSE <<>>, fields, <<>>, <<>>)
        IN SG(L[i], 2,
             <<Obj("Query", <<>>, <<F("q" \o L[i], Null("Int"))>> \o (IF c(i, 3) = 2 THEN <<FD("s", Null("Int"), sh)>> ELSE <<>>))>>
             \o (IF needP THEN <<P0>> ELSE <<>>)
             \o (IF impl THEN <<Iface("I", <<>>, <<>>, <<F(fields[1].n, StripT(fields[1].t))>>)>> ELSE <<>>)
             \o (IF Bit(members, 2) THEN <<Obj("R" \o L[i], <<>>, <<F("r", Null("Int"))>>)>> ELSE <<>>)
             \o (IF members > 1 THEN <<Union("U", <<>>, (IF Bit(members, 1) THEN <<"P">> ELSE <<>>) \o (IF Bit(members, 2) THEN <<"R" \o L[i]>> ELSE <<>>))>> ELSE <<>>)
             \o (IF Bit(fs, 4) THEN <<Scalar("S", <<>>)>> ELSE <<>>))
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

\* C04 on its own terms: the composed relation is the union of the declared ones.
OwnershipInv ==
  P!Done /\ out.ok =>
    LET sgs == Build(pick) IN
    /\ { x.n : x \in out.types } = UNION { Names(sgs[i].types) : i \in 1..N }
    /\ \A x \in out.types :
         /\ x.n # "Query" /\ x.t.k \in {"object", "interface", "enum"} => { j.g : j \in x.t.join } = { sgs[i].name : i \in { k \in 1..N : Defines(sgs[k], x.n) } }
         /\ \A f \in x.t.fields : { o.g : o \in f.own } = { sgs[i].name : i \in { k \in 1..N : Defines(sgs[k], x.n) /\ f.n \in Names(DefIn(sgs[k], x.n).fields) } }
         /\ { f.n : f \in x.t.fields } = UNION { Names(DefIn(sgs[i], x.n).fields) : i \in { k \in 1..N : Defines(sgs[k], x.n) } }
         /\ \A m \in x.t.members : \E i \in 1..N : sgs[i].name = m.g /\ m.m \in Ran(DefIn(sgs[i], x.n).members)
=============================================================================
