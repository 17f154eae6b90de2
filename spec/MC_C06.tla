------------------------------ MODULE MC_C06 ------------------------------
(* Overrides: every assignment of override targets and labels.             *)
EXTENDS Composition, Json
CONSTANTS N, Full
VARIABLES pick, out
L == <<"a", "b", "c", "d">>
\* "A" is not the name of a subgraph, although only the case differs from one
Targets == SubSeq(L, 1, N) \o <<"ghost", "A">>
Labels == IF Full THEN <<"", "percent(20)", "percent(100)">> ELSE <<"", "percent(20)">>
\* a label that is not percent(100) leaves part of the requests where they were
Partial == <<"percent(20)", "percent(0)", "percent(120)", "percent(256)", "percent( 5)", "percent(100) ", "PERCENT(100)", "percent()", "beta", "percent(100", "50", "a: b">>
LabelOf(k, p) == IF Labels[k] = "percent(20)" THEN Partial[1 + ((p[1] + 5 * p[2] + 7 * p[Len(p)] + 3 * p[Len(p) - 1]) % Len(Partial))] ELSE Labels[k]
NOpt == 3 + Len(Targets) * Len(Labels)    \* absent, plain, shareable, overrides
Slots == N + 1
Width(k) == IF k = 1 THEN (IF Full THEN 3 ELSE 2) ELSE NOpt
Build(p) ==
  LET where == <<"object", "root", "entity">>[p[1]]
      n == IF where = "root" THEN "Query" ELSE "P"
      sub(i) ==
        LET o == p[i + 1]
            from == Targets[((o - 4) \div Len(Labels)) + 1]
            lab == LabelOf(((o - 4) % Len(Labels)) + 1, p)
            dirs == IF o = 2 THEN <<>> ELSE IF o = 3 THEN <<D0("shareable")>>
                    ELSE IF lab = "" THEN <<D1("override", from)>> ELSE <<D2("override", from, lab)>>
            own == F("own" \o L[i], Null("Int"))
            def == Obj(n, IF where = "entity" THEN <<Key(<<S0("id")>>)>> ELSE <<>>,
                       (IF where = "entity" THEN <<F("id", Req("ID"))>> ELSE <<>>) \o <<own>> \o (IF o = 1 THEN <<>> ELSE <<FD("f", Null("Int"), dirs)>>))
        IN SG(L[i], 2, (IF where = "root" THEN <<>> ELSE <<Obj("Query", <<>>, <<F("q" \o L[i], Null("Int"))>>)>>) \o <<def>>)
  IN [i \in 1..N |-> sub(i)]
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
Next == P!Next

OverrideInv ==
  P!Done =>
    LET opt(i) == pick[i + 1]
        from(i) == Targets[((opt(i) - 4) \div Len(Labels)) + 1]
        lab(i) == LabelOf(((opt(i) - 4) % Len(Labels)) + 1, pick)
        ov == { i \in 1..N : opt(i) > 3 }
        full == { i \in ov : lab(i) \in {"", "percent(100)"} }
        n == IF pick[1] = 2 THEN "Query" ELSE "P"
        present == { i \in 1..N : opt(i) # 1 }
    IN /\ (\E i \in ov : from(i) = L[i]) => ~out.ok
       /\ (\E i, j \in ov : i # j /\ from(i) = from(j)) => ~out.ok
       /\ out.ok /\ present # {} =>
            { o.g : o \in P!FieldNamed(n, "f").own } = { L[i] : i \in { k \in present : ~\E j \in full : from(j) = L[k] } }
       /\ out.ok /\ present # {} => P!FieldNamed(n, "f").own # {}
       /\ out.ok => \A i \in ov : \A o \in P!FieldNamed(n, "f").own :
            o.g = L[i] => o.ov = from(i) /\ o.lbl = lab(i)
=============================================================================
