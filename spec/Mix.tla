------------------------------- MODULE Mix --------------------------------
(* Random systems of subgraphs that combine every feature the reference    *)
(* semantics covers. Each step of a simulation throws new dice, builds the *)
(* subgraphs they describe, ingests and composes them.                     *)
EXTENDS Composition, Json
CONSTANT Wild   \* 0: mostly composable; larger: more conflicts
VARIABLES dice, sgs, out

N == 3          \* at most three subgraphs
Slots == 90
D(i, k, n) == dice'[i * Slots + k] % n       \* a die with n faces
Chance(i, k, pct) == dice'[i * Slots + k] % 100 < pct
Names3 == <<"a", "b", "c">>
Opt(c, x) == IF c THEN <<x>> ELSE <<>>

\* description of the whole system, common to its subgraphs (dice row 0)
Common(k, n) == D(0, k, n)
Base(k, m) == \* type of a shared field, fixed per system; m: variation in one subgraph
  T(<<"Int", "String", "P", "E", "S", "Int">>[Common(k, 6) + 1], <<<<>>, <<"N">>, <<"L">>, <<"N", "L">>, <<"N", "L", "N">>>>[Common(k + 1, 5) + 1])
Vary(t, i, k) ==
  IF D(i, k, 10) < 2 THEN StripT(t) ELSE IF D(i, k, 10) < 4 THEN ReqT(t)
  ELSE IF Wild > 0 /\ D(i, k, 100) = 99 THEN T(t.b, Append(t.w, "L"))
  ELSE IF Wild > 0 /\ D(i, k, 100) = 98 THEN T("Boolean", t.w)
  ELSE t
Misc(i, k) ==
  Opt(Chance(i, k, 8), D1("tag", <<"t1", "t2">>[D(i, k, 2) + 1]))
  \o Opt(D(i, k, 100) \in 10..14, D0("authenticated"))
  \o Opt(D(i, k, 100) \in 15..19, Scopes(<<"r">>))
  \o Opt(D(i, k, 100) \in 18..22, Policy(<<"p">>))
  \o Opt(D(i, k, 100) \in 23..27, Cost(D(i, k, 7)))
Elem(i, k) == Misc(i, k) \o Opt(D(i, k, 100) \in 30..34, D1("deprecated", "old")) \o Opt(D(i, k, 100) \in 35..37, D0("inaccessible"))
Vis(i, k) == \* as Elem, but never hides the element
  Misc(i, k) \o Opt(D(i, k, 100) \in 30..34, D1("deprecated", "old"))

Fed(i) == IF Chance(i, 0, 10) THEN 1 ELSE 2
Own(i, k) == \* how a field of a shared object is declared in one subgraph
  IF Fed(i) = 1 THEN <<>> ELSE
  Opt(Chance(i, k, 92), D0("shareable"))
  \o Opt(D(i, k, 1000) \in 930..959, IF D(i, k, 2) = 0 THEN D1("override", Names3[(D(i, k, 7) % N) + 1]) ELSE D2("override", Names3[(D(i, k, 7) % N) + 1], "percent(20)"))
  \o Opt(D(i, k, 1000) \in 960..975, D0("external"))

ArgsOf(i, k) ==
  Opt(Chance(0, k, 40) /\ Chance(i, k, 90),
      ArgD("u", IF Chance(i, k + 1, 30) THEN Req("Int") ELSE Null("Int"),
           IF Chance(i, k + 1, 30) THEN <<IF Wild > 0 /\ D(i, k + 1, 50) = 1 THEN "2" ELSE "1">> ELSE <<>>, Elem(i, k + 1)))
  \o Opt(Chance(0, k + 1, 40) /\ Chance(i, k + 2, 90), ArgD("e", Null("N"), <<>>, Vis(i, k + 2)))

HasP(i) == Chance(i, 1, 75)
HasQ(i) == Chance(i, 2, 50)
HasI(i) == Chance(i, 3, 40)
HasE(i) == TRUE
HasU(i) == HasP(i) /\ Chance(i, 4, 40)
PEntity == Common(5, 10) < 6
\* selection of what P offers in subgraph i
PHas(i, f) == CASE f = "id" -> TRUE [] f = "x" -> Chance(i, 10, 70) [] f = "y" -> Chance(i, 11, 60) [] f = "z" -> Chance(i, 12, 50) [] f = "q" -> HasQ(i) /\ Chance(i, 13, 60)
PKeys(i) ==
  IF ~PEntity THEN <<>>
  ELSE IF Fed(i) = 1 /\ Chance(i, 14, 30) THEN <<>>
  ELSE <<KeyR(<<S0("id")>>, IF Chance(i, 14, 10) THEN "false" ELSE "true")>>
       \o Opt(PHas(i, "x") /\ Common(2, 10) # 99 /\ Chance(i, 15, 20) /\ Base(20, 0).b \notin {"P"}, Key(<<S0("x"), S0("id")>>))
       \o Opt(PHas(i, "q") /\ Chance(i, 16, 20), Key(<<S1("q", <<S0("k")>>)>>))
PField(i, f, k) == FD(f, Vary(Base(k, 0), i, k), (IF PEntity /\ f = "id" THEN <<>> ELSE Own(i, k)) \o Elem(i, k + 1))
P(i) ==
  ObjI("P", PKeys(i) \o Vis(i, 17), Opt(HasI(i), "I"),
     <<FD("id", IF Chance(i, 18, 80) THEN Req("ID") ELSE Null("ID"), IF PEntity /\ PKeys(i) # <<>> THEN <<>> ELSE Own(i, 18))>>
     \o Opt(PHas(i, "x"), PField(i, "x", 20))
     \o Opt(PHas(i, "y"), [PField(i, "y", 23) EXCEPT !.args = ArgsOf(i, 26)])
     \o Opt(PHas(i, "z"), LET z == PField(i, "z", 30) IN
             IF PEntity /\ PHas(i, "y") /\ Chance(i, 32, 15) /\ Fed(i) = 2 /\ ~Has(z.dirs, "external") THEN [z EXCEPT !.dirs = @ \o <<DS("requires", <<S0("y")>>)>>] ELSE z)
     \o Opt(PHas(i, "q"), LET q == FD("q", Null("Q"), Own(i, 33)) IN
             IF Chance(i, 34, 30) /\ ~Has(q.dirs, "external") THEN [q EXCEPT !.dirs = @ \o <<DS("provides", <<S0("k")>>)>>] ELSE q))
Q(i) == Obj("Q", Opt(Fed(i) = 2 /\ Chance(i, 36, 60), D0("shareable")) \o Vis(i, 37),
     <<FD("k", Vary(Base(40, 0), i, 40), Own(i, 40) \o Elem(i, 41))>> \o Opt(Chance(i, 42, 70), FD("m", Vary(Base(43, 0), i, 43), Own(i, 43) \o Elem(i, 44))))
I(i) == Iface("I", Vis(i, 45), <<>>, <<FD("id", Null("ID"), Vis(i, 46))>> \o Opt(PHas(i, "x") /\ Chance(i, 47, 40), FD("x", StripT(Base(20, 0)), Vis(i, 48))))
EUse == Common(50, 3)     \* how the enum is used: 0 output, 1 input, 2 both
E0(i) == Enum("E", Vis(i, 51), <<VD("A", Vis(i, 52))>> \o Opt(EUse = 2 \/ Chance(i, 53, 80), VD("B", Elem(i, 54))) \o Opt((EUse # 2 /\ Chance(i, 55, 50)) \/ (Wild > 0 /\ D(i, 55, 40) = 1), VD("C", Elem(i, 56))))
In(i) == Input("N", Vis(i, 57), <<InF("i", IF Chance(i, 58, 20) THEN Req("Int") ELSE Null("Int"), IF Chance(i, 59, 20) THEN <<"7">> ELSE <<>>, Vis(i, 59))>>
     \o Opt(Chance(i, 60, 80), InF("j", IF Chance(i, 61, 5) THEN Req("Int") ELSE Null("Int"), <<>>, Elem(i, 61)))
     \o Opt(EUse > 0, InF("e", Null("E"), <<>>, Vis(i, 62))))
U(i) == Union("U", Vis(i, 63), <<"P">> \o Opt(HasQ(i) /\ Chance(i, 64, 70), "Q"))
Sc(i) == Scalar("S", Elem(i, 65) )
Qry(i) == Obj("Query", <<>>,
     <<F("only" \o Names3[i], Null("Int"))>>
     \o Opt(Chance(i, 66, 60), [FD("r", Vary(Base(67, 0), i, 67), Own(i, 67) \o Elem(i, 68)) EXCEPT !.args = ArgsOf(i, 70)])
     \o Opt(HasP(i) /\ Chance(i, 73, 50), FD("p", Null("P"), Own(i, 73)))
     \o Opt(HasU(i), FD("u" \o Names3[i], Null("U"), Elem(i, 74)))
     \o Opt(EUse # 1, F("e" \o Names3[i], Null("E"))))
NeedsP(i) == HasP(i) \/ \E k \in {20, 23, 30, 40, 43, 67} : Base(k, 0).b = "P"
Gen(i) == SG(Names3[i], Fed(i),
     <<Qry(i)>> \o <<(IF HasP(i) THEN P(i) ELSE ObjI("P", PKeys(i), <<>>, <<FD("id", Req("ID"), IF PEntity /\ PKeys(i) # <<>> THEN <<>> ELSE Own(i, 75))>>))>>
     \o Opt(HasQ(i) \/ PHas(i, "q"), Q(i)) \o Opt(HasI(i), I(i)) \o <<E0(i)>> \o <<In(i)>> \o Opt(HasU(i), U(i)) \o <<Sc(i)>>)

NoOut == [ok |-> FALSE, errs |-> {}, types |-> {}]
Init == dice = [i \in 0..(Slots * (N + 1) - 1) |-> 0] /\ sgs = <<>> /\ out = NoOut
Next ==
  /\ dice' = TLCEval([i \in 0..(Slots * (N + 1) - 1) |-> RandomElement(0..(99999 + Len(sgs)))])
  /\ sgs' = TLCEval([i \in 1..(2 + (D(0, 0, 2))) |-> Gen(i)])
  /\ out' = TLCEval(Compose(sgs'))
  /\ PrintT("CASE " \o ToJson([sgs |-> sgs', ok |-> out'.ok, errs |-> out'.errs, types |-> out'.types, api |-> IF out'.ok THEN Api(out') ELSE {}]))
=============================================================================
