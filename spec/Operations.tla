----------------------------- MODULE Operations ----------------------------
(* Operation checks: which changes between two schemas break the recorded  *)
(* operations.  A behaviour picks a source schema, a target schema that    *)
(* differs in a few places, and a history of operations that are valid on  *)
(* the source, each with a request count.  The specification says what the *)
(* history uses, how often, and which diagnostics the check must give for  *)
(* each threshold; the invariants relate the diagnostics to validity of    *)
(* the operations on the target.                                           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
VARIABLES src, tgt, ops, dice

\* ------------------------------------------------------------ types
T(b, ls, nn) == [b |-> b, ls |-> ls, nn |-> nn]     \* base, lists from the outside in (TRUE: non-null), base is non-null
Outer(t) == IF Len(t.ls) > 0 THEN t.ls[1] ELSE t.nn
Flags(t) == t.ls \o <<t.nn>>
Compare(a, b) ==
  LET added == \E i \in 1..Len(Flags(a)) : ~Flags(a)[i] /\ Flags(b)[i]
      removed == \E i \in 1..Len(Flags(a)) : Flags(a)[i] /\ ~Flags(b)[i]
  IN IF Len(a.ls) # Len(b.ls) THEN "incompatible"
     ELSE IF added /\ removed THEN "incompatible" ELSE IF added THEN "added" ELSE IF removed THEN "removed" ELSE "same"
NonNull(t) == IF Len(t.ls) > 0 THEN [t EXCEPT !.ls[1] = TRUE] ELSE [t EXCEPT !.nn = TRUE]
OnlyOuter(a, b) == a.b = b.b /\ NonNull(a) = NonNull(b)

Arg(n, t, d) == [n |-> n, t |-> t, d |-> d]
Field(n, t, args) == [n |-> n, t |-> t, args |-> args]
By(n, S) == CHOOSE x \in S : x.n = n
Ns(S) == { x.n : x \in S }

\* A schema: objects and interfaces (name -> implemented interfaces and fields), unions, enums, input objects.
Comps == {"Query", "Mutation", "A", "B", "C", "I", "J"}
Objects == {"Query", "Mutation", "A", "B", "C"}
Interfaces == {"I", "J"}
InputNames == {"In", "In2"}
\* names whose kind may change: they are scalars (enumerations, for In2) in the target then
MayFlip == {"A", "C", "I", "J", "U", "E", "In2"}
Gone == [here |-> FALSE, impl |-> {}, fields |-> {}]
Schema(comp, u, e, inputs) == [comp |-> comp, u |-> u, e |-> e, inputs |-> inputs, flip |-> {}]
Nothing == Schema([n \in Comps |-> Gone], {}, {}, [n \in InputNames |-> {}])
Here(s, n) == IF n \in Comps THEN s.comp[n].here ELSE IF n = "U" THEN s.u # {} ELSE IF n = "E" THEN s.e # {} ELSE IF n \in InputNames THEN s.inputs[n] # {} ELSE TRUE
FieldsOf(s, n) == IF n \in Comps THEN s.comp[n].fields ELSE {}
Possible(s, n) == IF n \in Objects THEN (IF s.comp[n].here THEN {n} ELSE {}) ELSE IF n = "U" THEN s.u ELSE { o \in Objects : s.comp[o].here /\ n \in s.comp[o].impl /\ s.comp[n].here }
Composite(n) == n \in Comps \cup {"U"}

\* ------------------------------------------------------------ operations
\* A value: how it is given ("var", "lit", "default": variable with a default), its enum leaves, and whether its input objects have all fields.
Value(how, e, full) == [how |-> how, e |-> e, full |-> full]
None == Value("", "", FALSE)
Entry(k, n, on, args, sub) == [k |-> k, n |-> n, on |-> on, args |-> args, sub |-> sub]

\* input fields that the literal of an input object gives
RECURSIVE EnumPositions(_, _, _, _)
Given(s, n, full) == { f \in s.inputs[n] : full \/ (Outer(f.t) /\ ~f.d) }
EnumPositions(s, b, full, depth) == \* number of enum leaves in the literal
  IF b = "E" THEN 1
  ELSE IF b \in InputNames /\ depth > 0 THEN FoldSet(LAMBDA f, acc : acc + EnumPositions(s, f.t.b, full, depth - 1), 0, { f \in Given(s, b, full) : ~(depth = 1 /\ f.t.b \in InputNames) })
  ELSE 0

Occ(u, q) == Cardinality({ i \in 1..Len(q) : q[i] = u })
Times(n, u) == [i \in 1..n |-> u]
RECURSIVE Uses(_, _, _)
EntryUses(s, p, x) ==
  IF x.k # "field"
  THEN (IF x.on = "" THEN <<>> ELSE << <<"cond", p, x.on, "">> >>) \o Uses(s, IF x.on = "" THEN p ELSE x.on, x.sub)
  ELSE IF x.n = "__typename" \/ x.n \notin Ns(FieldsOf(s, p)) THEN <<>>
  ELSE LET f == By(x.n, FieldsOf(s, p))
           given == SetToSeq({ a.n : a \in x.args })
           arg(n) == LET v == By(n, x.args).v  a == By(n, f.args) IN
                     << <<"arg", p, x.n, n>> >> \o (IF v.how = "var" THEN <<>> ELSE Times(EnumPositions(s, a.t.b, v.full, 2), <<"enum", v.e, "", "">>))
           left == SetToSeq({ <<"left", p, x.n, a.n>> : a \in { y \in f.args : y.n \notin Ns(x.args) /\ Outer(y.t) /\ y.d } })
       IN << <<"field", p, x.n, "">> >> \o FlattenSeq([i \in 1..Len(given) |-> arg(given[i])]) \o left \o Uses(s, f.t.b, x.sub)
Uses(s, p, sel) == FlattenSeq([i \in 1..Len(sel) |-> EntryUses(s, p, sel[i])])
Root(ty) == IF ty = "mutation" THEN "Mutation" ELSE "Query"
RECURSIVE Sum(_, _, _, _)
Sum(s, hist, u, i) == IF i > Len(hist) THEN 0 ELSE hist[i].count * Occ(u, hist[i].uses) + Sum(s, hist, u, i + 1)
Counted(hist) == UNION { { hist[i].uses[j] : j \in 1..Len(hist[i].uses) } : i \in 1..Len(hist) }
\* history with the uses of each operation
History(s, os) == [i \in 1..Len(os) |-> [count |-> os[i].count, uses |-> Uses(s, Root(os[i].ty), os[i].sel)]]
Counts(s, os) == LET h == TLCEval(History(s, os)) IN [u \in Counted(h) |-> Sum(s, h, u, 1)]
Used(counts, threshold) == { u \in DOMAIN counts : counts[u] >= threshold }

\* ------------------------------------------------------------ diagnostics
D(p, f, a, k, sev) == [p |-> p, f |-> f, a |-> a, k |-> k, sev |-> sev]
RequiredArg(a) == Outer(a.t) /\ ~a.d
RECURSIVE Closure(_, _)
Closure(s, seen) ==
  LET more == seen \cup UNION { { f.t.b : f \in s.inputs[n] } : n \in seen \cap InputNames }
  IN IF more = seen THEN seen ELSE Closure(s, more)
UsedInputs(s, used) == Closure(s, { By(u[4], By(u[3], FieldsOf(s, u[2])).args).t.b : u \in { x \in used : x[1] = "arg" } })

ArgDiags(p, f, x, y, used) ==
  LET fu == <<"field", p, f, "">> \in used
      au(n) == <<"arg", p, f, n>> \in used IN
  { D(p, f, n, "AddFieldArgument", "Error") : n \in { m \in Ns(y) \ Ns(x) : fu /\ RequiredArg(By(m, y)) } }
  \cup { D(p, f, n, "RemoveFieldArgument", "Error") : n \in { m \in Ns(x) \ Ns(y) : au(m) } }
  \cup { D(p, f, n, "RemoveFieldArgumentDefault", "Error") : n \in { m \in Ns(x) \cap Ns(y) : By(m, x).d /\ ~By(m, y).d /\ Outer(By(m, y).t) /\ <<"left", p, f, m>> \in used } }
  \cup { D(p, f, n, "ChangeFieldArgumentType", "Error") :
         n \in { m \in Ns(x) \cap Ns(y) : LET a == By(m, x)  b == By(m, y)  c == Compare(a.t, b.t) IN
                   a.t # b.t /\ fu /\
                   IF a.t.b = b.t.b /\ c = "removed" THEN FALSE
                   ELSE IF a.t.b = b.t.b /\ c = "added" THEN ~(b.d /\ OnlyOuter(a.t, b.t))
                   ELSE au(m) \/ (RequiredArg(b) /\ ~Outer(a.t)) } }
FieldDiags(p, x, y, used) ==
  { D(p, f, "", "RemoveField", "Error") : f \in { g \in Ns(x) \ Ns(y) : <<"field", p, g, "">> \in used } }
  \cup { D(p, f, "", "ChangeFieldType", "Error") :
         f \in { g \in Ns(x) \cap Ns(y) : LET a == By(g, x).t  b == By(g, y).t IN
                   <<"field", p, g, "">> \in used /\ a # b /\ (a.b # b.b \/ Compare(a, b) \in {"incompatible", "removed"}) } }
  \cup UNION { ArgDiags(p, f, By(f, x).args, By(f, y).args, used) : f \in Ns(x) \cap Ns(y) }
Mentioned(used, n) == \E u \in used : u[1] = "cond" /\ u[3] = n
UsedType(s, used, usedInputs, n) ==
  \/ \E u \in used : u[1] = "field" /\ (u[2] = n \/ By(u[3], FieldsOf(s, u[2])).t.b = n)
  \/ \E u \in used : u[1] = "arg" /\ By(u[4], By(u[3], FieldsOf(s, u[2])).args).t.b = n
  \/ n \in usedInputs \/ \E m \in usedInputs \cap InputNames : \E f \in s.inputs[m] : f.t.b = n
  \/ Mentioned(used, n)
KindOf(n) == IF n \in Objects THEN "RemoveObjectType" ELSE IF n \in Interfaces THEN "RemoveInterface" ELSE IF n = "U" THEN "RemoveUnion" ELSE IF n = "E" THEN "RemoveEnum" ELSE "RemoveInputObject"
Cond(used, a, b) == <<"cond", a, b, "">> \in used \/ <<"cond", b, a, "">> \in used
CompDiags(n, a, b, used) ==
  IF a.here /\ b.here
  THEN FieldDiags(n, a.fields, b.fields, used)
       \cup { D(n, "&" \o i, "", "RemoveInterfaceImplementation", "Error") : i \in { j \in a.impl \ b.impl : Cond(used, j, n) } }
  ELSE IF a.here /\ n \in Objects /\ ((\E i \in a.impl : Cond(used, i, n)) \/ (n \in {"Query", "Mutation"} /\ \E f \in Ns(a.fields) : <<"field", n, f, "">> \in used))
  THEN { D(n, "", "", "RemoveObjectType", "Error") }
  ELSE IF a.here /\ n \in Interfaces /\ Mentioned(used, n) THEN { D(n, "", "", "RemoveInterface", "Error") } ELSE {}
InputDiags(n, x, y, isused) ==
  IF ~isused \/ x = {} \/ y = {} THEN {} ELSE
  { D(n, f, "", "RemoveField", IF Outer(By(f, x).t) THEN "Error" ELSE "Warning") : f \in Ns(x) \ Ns(y) }
  \cup { D(n, f, "", "AddField", "Error") : f \in { g \in Ns(y) \ Ns(x) : RequiredArg(By(g, y)) } }
  \cup { D(n, f, "", "ChangeFieldType", "Error") : f \in { g \in Ns(x) \cap Ns(y) : By(g, x).t # By(g, y).t /\ (By(g, x).t.b # By(g, y).t.b \/ Compare(By(g, x).t, By(g, y).t) = "incompatible") } }
  \cup { D(n, f, "", "ChangeFieldType", "Warning") : f \in { g \in Ns(x) \cap Ns(y) : By(g, x).t.b = By(g, y).t.b /\ Compare(By(g, x).t, By(g, y).t) = "added" } }
Diagnostics(s, t, used, usedInputs) ==
  UNION { CompDiags(n, s.comp[n], t.comp[n], used) : n \in Comps \ t.flip }
  \cup UNION { InputDiags(n, s.inputs[n], t.inputs[n], n \in usedInputs) : n \in InputNames \ t.flip }
  \cup { D(n, "", "", KindOf(n), "Error") : n \in { m \in t.flip : UsedType(s, used, usedInputs, m) } }
  \cup (IF s.u # {} /\ t.u = {} /\ Mentioned(used, "U") THEN { D("U", "", "", "RemoveUnion", "Error") } ELSE {})
  \cup (IF s.e # {} /\ t.e # {} /\ "E" \notin t.flip THEN { D("E", v, "", "RemoveEnumValue", "Error") : v \in { w \in s.e \ t.e : <<"enum", w, "", "">> \in used } } ELSE {})
  \cup (IF s.u # {} /\ t.u # {} /\ "U" \notin t.flip THEN { D("U", v, "", "RemoveUnionMember", "Error") : v \in { w \in s.u \ t.u : Cond(used, "U", w) } } ELSE {})
Diags(s, t, used) == Diagnostics(s, t, used, UsedInputs(s, used))
\* Without operations: everything counts as used.
Everything(s) ==
  UNION { { <<"field", n, f.n, "">> : f \in s.comp[n].fields } \cup UNION { { <<"arg", n, f.n, a.n>> : a \in f.args } \cup { <<"left", n, f.n, a.n>> : a \in f.args } : f \in s.comp[n].fields } : n \in Comps }
  \cup { <<"enum", v, "", "">> : v \in s.e } \cup { <<"cond", a, b, "">> : a \in Comps \cup {"U"}, b \in Comps \cup {"U", "E", "In2"} }
DiagsAll(s, t) == Diagnostics(s, t, Everything(s), InputNames)

\* ------------------------------------------------------------ what breaks an operation
RECURSIVE Breaks(_, _, _, _)
LiteralFits(s, t, b, full) == \* the input object literals of the source are still complete and typed alike
  Closure(s, {b}) \cap t.flip = {} /\ \A n \in Closure(s, {b}) \cap InputNames : t.inputs[n] # {} =>
     /\ \A f \in Given(s, n, full) : f.n \in Ns(t.inputs[n]) /\ By(f.n, t.inputs[n]).t.b = f.t.b /\ Compare(f.t, By(f.n, t.inputs[n]).t) \in {"same", "removed", "added"}
     /\ \A g \in t.inputs[n] : RequiredArg(g) => g.n \in Ns(s.inputs[n])     \* (defaults of input fields are outside the diff)
ArgFits(s, t, a, b, v) ==
  /\ a.t.b = b.t.b /\ a.t.b \notin t.flip
  /\ Compare(a.t, b.t) \in {"same", "removed"} \/ (b.d /\ OnlyOuter(a.t, b.t))
  /\ v.how # "var" => ((v.e # "" /\ EnumPositions(s, a.t.b, v.full, 2) > 0) => v.e \in t.e) /\ LiteralFits(s, t, a.t.b, v.full)
EntryBreaks(s, t, p, x) ==
  IF x.k # "field" THEN
    LET q == IF x.on = "" THEN p ELSE x.on IN
    (x.on # "" /\ (~Here(t, q) \/ q \in t.flip \/ (Possible(t, p) \cap Possible(t, q) = {} /\ (p \in Objects \/ q \in Objects)))) \/ Breaks(s, t, q, x.sub)
  ELSE IF x.n = "__typename" THEN FALSE
  ELSE LET f == By(x.n, FieldsOf(s, p)) IN
    IF x.n \notin Ns(FieldsOf(t, p)) THEN TRUE
    ELSE LET g == By(x.n, FieldsOf(t, p)) IN
      \/ f.t.b # g.t.b \/ (Len(x.sub) > 0 /\ g.t.b \in t.flip) \/ Compare(f.t, g.t) \notin {"same", "added"}
      \/ \E a \in x.args : a.n \notin Ns(g.args) \/ ~ArgFits(s, t, By(a.n, f.args), By(a.n, g.args), a.v)
      \/ \E b \in g.args : RequiredArg(b) /\ b.n \notin Ns(x.args)
      \/ Breaks(s, t, f.t.b, x.sub)
Breaks(s, t, p, sel) == \E i \in 1..Len(sel) : EntryBreaks(s, t, p, sel[i])
BrokenOp(s, t, o) == ~t.comp[Root(o.ty)].here \/ Breaks(s, t, Root(o.ty), o.sel)

\* K01: an operation that breaks is reported.
Sound == \A i \in 1..Len(ops) : BrokenOp(src, tgt, ops[i]) => Diags(src, tgt, Used(Counts(src, ops), 1)) # {}
SoundAll == (\E i \in 1..Len(ops) : BrokenOp(src, tgt, ops[i])) => DiagsAll(src, tgt) # {}
\* K02: nothing is reported when every difference is safe by the rules of GraphQL, and nothing about what is not used.
SafeArgs(x, y) == (\A a \in x : a.n \in Ns(y) /\ LET b == By(a.n, y) IN b.t.b = a.t.b /\ Compare(a.t, b.t) \in {"same", "removed"} /\ (a.d /\ Outer(b.t) => b.d))
                  /\ \A b \in y : b.n \notin Ns(x) => ~RequiredArg(b)
SafeFields(x, y) == \A f \in x : f.n \in Ns(y) /\ LET g == By(f.n, y) IN g.t.b = f.t.b /\ Compare(f.t, g.t) \in {"same", "added"} /\ SafeArgs(f.args, g.args)
Safe(s, t) ==
  /\ \A n \in Comps : s.comp[n].here => t.comp[n].here /\ s.comp[n].impl \subseteq t.comp[n].impl /\ SafeFields(s.comp[n].fields, t.comp[n].fields)
  /\ t.flip = {} /\ s.u \subseteq t.u /\ s.e \subseteq t.e
  /\ \A n \in InputNames : s.inputs[n] # {} => SafeArgs(s.inputs[n], t.inputs[n])
Quiet == Safe(src, tgt) => DiagsAll(src, tgt) = {}
QuietWhenUnused == Diags(src, tgt, {}) = {}
Monotone == \A k \in 1..3 : Diags(src, tgt, Used(Counts(src, ops), k + 1)) \subseteq Diags(src, tgt, Used(Counts(src, ops), k))
AllCovers == { [d EXCEPT !.sev = ""] : d \in Diags(src, tgt, Used(Counts(src, ops), 1)) } \subseteq { [d EXCEPT !.sev = ""] : d \in DiagsAll(src, tgt) }

\* ------------------------------------------------------------ random histories
N == 400
Rate == <<3, 8, 25>>[(dice'[1] % 3) + 1]
Die(side, k) == IF side = 2 /\ (dice'[3 * k + 3] % 100) < Rate THEN dice'[3 * k + 2] ELSE dice'[3 * k + 1]
R(side, k, n) == Die(side, k) % n
OptS(c, x) == IF c THEN {x} ELSE {}
Wrap(b, x) == <<T(b, <<>>, FALSE), T(b, <<>>, TRUE), T(b, <<FALSE>>, FALSE), T(b, <<TRUE>>, TRUE), T(b, <<FALSE>>, TRUE), T(b, <<TRUE>>, FALSE), T(b, <<FALSE, TRUE>>, FALSE), T(b, <<>>, FALSE), T(b, <<>>, TRUE)>>[(x % 9) + 1]
OutBases == <<"Int", "String", "A", "B", "C", "I", "J", "U", "E", "A", "I", "U">>
InBases == <<"Int", "String", "E", "In", "E", "In2", "In", "Int">>
RArg(s, k, n) == Arg(n, Wrap(InBases[R(s, k, 8) + 1], R(s, k + 1, 63)), R(s, k + 2, 3) = 0)
RArgs(s, k) == OptS(R(s, k, 2) = 0, RArg(s, k + 1, "x")) \cup OptS(R(s, k + 4, 3) = 0, RArg(s, k + 5, "y"))
\* 12 dice
RField(s, k, n) == Field(n, Wrap(OutBases[R(s, k, 12) + 1], R(s, k + 1, 63)), RArgs(s, k + 2))
IFields(s) == OptS(R(s, 10, 10) < 8, RField(s, 11, "i")) \cup OptS(R(s, 23, 10) < 5, RField(s, 24, "k"))
JFields(s) == {Field("j", T("Int", <<>>, FALSE), {})} \cup OptS(R(s, 36, 10) < 5, RField(s, 37, "m"))
Own(s, k) == {Field("id", T("Int", <<>>, R(s, k, 2) = 0), {})} \cup OptS(R(s, k + 1, 10) < 8, RField(s, k + 2, "f")) \cup OptS(R(s, k + 14, 10) < 4, RField(s, k + 15, "g"))
Raw(s) ==
  LET comp == [n \in Comps |->
        CASE n = "Query" -> [here |-> TRUE, impl |-> {}, fields |-> {Field("q", T("Int", <<>>, FALSE), {})} \cup OptS(R(s, 50, 10) < 9, RField(s, 51, "a")) \cup OptS(R(s, 63, 10) < 9, RField(s, 64, "b")) \cup OptS(R(s, 76, 10) < 6, RField(s, 77, "c"))]
          [] n = "Mutation" -> IF R(s, 90, 5) = 0 THEN Gone ELSE [here |-> TRUE, impl |-> {}, fields |-> Own(s, 91)]
          [] n = "A" -> [here |-> TRUE, impl |-> OptS(R(s, 120, 3) > 0, "I"), fields |-> Own(s, 121) \cup IFields(s)]
          [] n = "B" -> [here |-> TRUE, impl |-> OptS(R(s, 150, 2) = 0, "I") \cup OptS(R(s, 151, 2) = 0, "J"), fields |-> Own(s, 152) \cup IFields(s) \cup JFields(s)]
          [] n = "C" -> IF R(s, 180, 6) = 0 THEN Gone ELSE [here |-> TRUE, impl |-> OptS(R(s, 181, 2) = 0, "J"), fields |-> Own(s, 182) \cup JFields(s)]
          [] n = "I" -> [here |-> TRUE, impl |-> {}, fields |-> IFields(s) \cup {Field("id", T("Int", <<>>, FALSE), {})}]
          [] n = "J" -> IF R(s, 210, 7) = 0 THEN Gone ELSE [here |-> TRUE, impl |-> {}, fields |-> JFields(s)] ]
      inp(f, k) == RArg(s, k, f)
  IN Schema(comp,
       IF R(s, 215, 7) = 0 THEN {} ELSE OptS(R(s, 211, 3) > 0, "A") \cup OptS(R(s, 212, 2) = 0, "B") \cup OptS(R(s, 213, 2) = 0, "C"),
       OptS(R(s, 220, 8) > 0, "V1") \cup OptS(R(s, 221, 3) > 0, "V2") \cup OptS(R(s, 222, 3) = 0, "V3"),
       [n \in InputNames |-> IF n = "In" THEN {Arg("x", T("Int", <<>>, FALSE), FALSE)} \cup OptS(R(s, 230, 3) = 0, inp("y", 231)) \cup OptS(R(s, 235, 2) = 0, Arg("e", Wrap("E", R(s, 236, 63)), R(s, 237, 4) = 0)) \cup OptS(R(s, 238, 2) = 0, Arg("n", Wrap("In2", R(s, 239, 63)), FALSE))
                            ELSE IF R(s, 245, 8) = 0 THEN {} ELSE OptS(R(s, 246, 2) = 0, Arg("z", Wrap("Int", R(s, 247, 63)), R(s, 248, 3) = 0)) \cup OptS(R(s, 249, 2) = 0, Arg("e", Wrap("E", R(s, 250, 63)), FALSE)) \cup OptS(R(s, 251, 4) = 0, Arg("back", T("In", <<>>, FALSE), FALSE)) ])
\* The parts that mention types that are not there are dropped.
InputsHere(s) == LET one == { n \in InputNames : { f \in s.inputs[n] : f.t.b \in {"Int", "String"} \/ (f.t.b = "E" /\ s.e # {}) } # {} } IN one
OkIn(s, t) == t.b \in {"Int", "String"} \/ (t.b = "E" /\ s.e # {}) \/ (t.b \in InputsHere(s))
OkField(s, u, f) == (f.t.b \in {"Int", "String"} \/ (f.t.b = "E" /\ s.e # {}) \/ (f.t.b = "U" /\ u # {}) \/ (f.t.b \in Comps /\ s.comp[f.t.b].here))
Clean(s) ==
  LET u == { m \in s.u : s.comp[m].here }
  IN Schema([n \in Comps |-> [here |-> s.comp[n].here, impl |-> { i \in s.comp[n].impl : s.comp[i].here },
                            fields |-> { Field(f.n, f.t, { a \in f.args : OkIn(s, a.t) }) : f \in { g \in s.comp[n].fields : OkField(s, u, g) } }]],
            u, s.e, [n \in InputNames |-> IF n \in InputsHere(s) THEN { f \in s.inputs[n] : OkIn(s, f.t) } ELSE {}])
RSchema(s) == Clean(TLCEval(Raw(s)))

\* an operation, valid on s
O(k, n) == dice'[3 * N + 4 + (((k % 997) * 79) % 997)] % n
RValue(s, t, k) == Value(<<"var", "lit", "lit", "default", "lit">>[O(k, 5) + 1], IF s.e = {} THEN "" ELSE SetToSeq(s.e)[O(k + 1, Cardinality(s.e)) + 1], O(k + 2, 2) = 0)
RECURSIVE RSel(_, _, _, _)
Overlapping(s, p) == { q \in (Comps \cup {"U"}) \ {"Query", "Mutation"} : Here(s, q) /\ Possible(s, q) \cap Possible(s, p) # {} }
Leaf == <<Entry("field", "__typename", "", {}, <<>>)>>
REntry(s, p, depth, k) ==
  LET fs == SetToSeq(FieldsOf(s, p))
      conds == SetToSeq(Overlapping(s, p))
      what == O(k, 10)
  IN IF (what < 3 \/ Len(fs) = 0) /\ Len(conds) > 0 /\ depth > 0
     THEN LET q == conds[O(k + 1, Len(conds)) + 1] IN
          IF what = 0 THEN Entry("inline", "", "", {}, RSel(s, p, depth - 1, 4 * k + 1))
          ELSE Entry(IF O(k + 2, 3) = 0 THEN "spread" ELSE "inline", "", q, {}, RSel(s, q, depth - 1, 4 * k + 2))
     ELSE IF Len(fs) = 0 THEN Leaf[1]
     ELSE LET f == fs[O(k + 3, Len(fs)) + 1]
              args == { [n |-> a.n, v |-> RValue(s, a.t, 4 * k + 11 + (IF a.n = "x" THEN 0 ELSE 5))] : a \in { b \in f.args : RequiredArg(b) \/ O(4 * k + 9 + (IF b.n = "x" THEN 0 ELSE 1), 2) = 0 } }
          IN IF ~Composite(f.t.b) THEN Entry("field", f.n, "", args, <<>>)
             ELSE Entry("field", f.n, "", args, IF depth = 0 THEN Leaf ELSE RSel(s, f.t.b, depth - 1, 4 * k + 3))
RSel(s, p, depth, k) == [i \in 1..(1 + O(k + 500, 2)) |-> REntry(s, p, depth, 4 * k + 17 * i)]
ROp(s, i) ==
  LET ty == IF O(i + 900, 4) = 0 /\ s.comp["Mutation"].here THEN "mutation" ELSE "query"
  IN [ty |-> ty, count |-> <<1, 1, 2, 5>>[O(i + 901, 4) + 1], sel |-> RSel(s, Root(ty), 3, 31 * i)]

Say(a, b, os) ==
  LET c == TLCEval(Counts(a, os)) IN
  PrintT("CASE " \o ToJson([src |-> a, tgt |-> b, ops |-> os,
    counts |-> { [u |-> u, n |-> c[u]] : u \in DOMAIN c },
    expect |-> [k \in 1..4 |-> LET th == <<1, 2, 4, 7>>[k] IN [threshold |-> th, diags |-> Diags(a, b, Used(c, th))]],
    all |-> DiagsAll(a, b)]))
Init == src = Nothing /\ tgt = Nothing /\ ops = <<>> /\ dice = <<>>
Next ==
  /\ dice' = TLCEval([k \in 1..(3 * N + 4 + 1000) |-> RandomElement(0..(99999 + Cardinality(src.e)))])
  /\ src' = TLCEval(RSchema(1))
  /\ tgt' = TLCEval(LET t == RSchema(2)
                        n == <<"A", "C", "I", "J", "U", "E", "In2">>[(dice'[3 * N + 4] % 7) + 1]
                    IN [t EXCEPT !.flip = IF dice'[3 * N + 3] % 5 = 0 /\ Here(src', n) /\ Here(t, n) THEN {n} ELSE {}])
  /\ ops' = TLCEval([i \in 1..(1 + (dice'[2] % 3)) |-> ROp(src', i)])
  /\ Say(src', tgt', ops')
=============================================================================
