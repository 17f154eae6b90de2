------------------------------ MODULE MC_C09 ------------------------------
(* Every placement of up to Marks @inaccessible markers in a graph with    *)
(* every kind of element, defined by two subgraphs.                        *)
EXTENDS Composition, Json
CONSTANTS Marks
VARIABLES pick, out
Sites == <<"P", "P.x", "P.y", "P.y(a)", "P.y(b)", "R", "R.r", "I", "I.id", "E", "E.A", "E.B", "N", "N.i", "N.j", "U", "S", "Query.p", "Query.u", "Query.n(n)", "Query.e", "Query.s", "P.id", "Query.i", "W", "W.w">>
M == Len(Sites)
\* choice c: 1 nothing, else site ((c-2) \div 2)+1 in subgraph a or b
Slots == Marks
Width(k) == 1 + 2 * M
Build(p) ==
  LET marked(s, g) == \E k \in 1..Marks : p[k] > 1 /\ Sites[((p[k] - 2) \div 2) + 1] = s /\ (p[k] % 2 = 0 <=> g = "a")
      mk(s, g) == IF marked(s, g) THEN <<D0("inaccessible")>> ELSE <<>>
      sh == <<D0("shareable")>>
      sub(g) ==
        SG(g, 2, <<
          Obj("Query", <<>>, <<F("only" \o g, Null("Int")), FD("p", Null("P"), sh \o mk("Query.p", g)), FD("u", Null("U"), sh \o mk("Query.u", g)),
               FA("n", Null("Int"), <<ArgD("n", Null("N"), <<>>, mk("Query.n(n)", g))>>, sh), FD("e", Null("E"), sh \o mk("Query.e", g)),
               FD("s", Null("S"), sh \o mk("Query.s", g)), FD("i", Null("I"), sh \o mk("Query.i", g))>>),
          ObjI("P", mk("P", g), <<"I">>, <<FD("id", Null("ID"), sh \o mk("P.id", g)), FD("x", Null("Int"), sh \o mk("P.x", g)),
               FA("y", Null("Int"), <<ArgD("a", Null("Int"), <<>>, mk("P.y(a)", g)), ArgD("b", Null("E"), <<>>, mk("P.y(b)", g))>>, sh \o mk("P.y", g))>>),
          Obj("R", mk("R", g), <<FD("r", Null("Int"), sh \o mk("R.r", g))>>),
          Obj("W", mk("W", g), <<FD("w", Null("Int"), sh \o mk("W.w", g))>>),
          Iface("I", mk("I", g), <<>>, <<FD("id", Null("ID"), mk("I.id", g))>>),
          Enum("E", mk("E", g), <<VD("A", mk("E.A", g)), VD("B", mk("E.B", g))>>),
          Input("N", mk("N", g), <<InF("i", Null("Int"), <<>>, mk("N.i", g)), InF("j", Null("Int"), <<>>, mk("N.j", g))>>),
          Union("U", mk("U", g), <<"P", "R", "W">>),
          Scalar("S", mk("S", g)) >>)
  IN <<sub("a"), sub("b")>>
Garnished(p) == ByPick(p)
P == INSTANCE Picks
Init == P!Init
\* markers in increasing order: each set of markers once
Next == P!Next /\ (Len(pick') > 1 => pick'[Len(pick')] >= pick'[Len(pick') - 1])

\* C09 on its own terms
InaccessibleInv ==
  P!Done /\ out.ok =>
    LET marked(s) == \E k \in 1..Marks : pick[k] > 1 /\ Sites[((pick[k] - 2) \div 2) + 1] = s
        api == Api(out)
        vis(n) == \E x \in api : x.n = n
        at(n) == CHOOSE x \in api : x.n = n
        typ(n) == P!TypeNamed(n)
    IN /\ \A n \in {"P", "R", "I", "E", "N", "U", "S", "W"} : typ(n).dirs.inacc = marked(n) /\ (marked(n) => ~vis(n))
       /\ \A f \in {"x", "y", "id"} : P!FieldNamed("P", f).dirs.inacc = marked("P." \o f)
       /\ vis("P") => \A f \in {"x", "y", "id"} : (\E y \in at("P").fields : y.n = f) <=> ~marked("P." \o f)
       /\ vis("E") => \A v \in {"A", "B"} : (\E y \in at("E").vals : y.n = v) <=> ~marked("E." \o v)
       /\ vis("N") => \A v \in {"i", "j"} : (\E y \in at("N").infields : y.n = v) <=> ~marked("N." \o v)
       /\ vis("U") => \A m \in {"P", "R", "W"} : m \in at("U").members => ~marked(m)
       /\ \A x \in api : \A f \in x.fields : \A a \in f.args : ~marked(x.n \o "." \o f.n \o "(" \o a.n \o ")")
=============================================================================
