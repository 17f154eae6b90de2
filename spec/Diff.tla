-------------------------------- MODULE Diff ------------------------------
(* What the difference between two schemas is, and what applying it gives. *)
(* A behaviour picks a source and a target schema (all pairs of a catalogue*)
(* of small schemas, or random ones that differ in a few places); the      *)
(* outcome is the set of changes between them.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode      \* "types", "roots" or "random"
VARIABLES src, tgt, dice

Absent == [k |-> "absent", impl |-> {}, fields |-> {}, vals |-> {}, members |-> {}]
Def(k, impl, fields, vals, members) == [k |-> k, impl |-> impl, fields |-> fields, vals |-> vals, members |-> members]
Field(n, t, args, d) == [n |-> n, t |-> t, args |-> args, d |-> d]      \* d: default, for fields of input objects
Arg(n, t, d) == [n |-> n, t |-> t, d |-> d]
NoRoots == [here |-> FALSE, query |-> "", mutation |-> "", subscription |-> ""]
Names == {"A", "B", "C"}
\* exts: how many extensions of the schema definition there are
WithExts(types, roots, dirs, exts) == [types |-> types, roots |-> roots, dirs |-> dirs, exts |-> exts]
Schema(types, roots, dirs) == WithExts(types, roots, dirs, 0)
Empty == Schema([n \in Names |-> Absent], NoRoots, {})
ExtName == <<":schema[0]", ":schema[1]", ":schema[2]", ":schema[3]">>

\* ------------------------------------------------------------ the difference
C(k, n, f, a, to) == [k |-> k, n |-> n, f |-> f, a |-> a, to |-> to]
Suffix(k) == CASE k = "object" -> "ObjectType" [] k = "interface" -> "Interface" [] k = "input" -> "InputObject" [] k = "enum" -> "Enum" [] k = "union" -> "Union" [] k = "scalar" -> "Scalar"
By(n, S) == CHOOSE x \in S : x.n = n
Ns(S) == { x.n : x \in S }
Args(n, f, x, y) ==
  { C("AddFieldArgument", n, f, m, By(m, y)) : m \in Ns(y) \ Ns(x) }
  \cup { C("RemoveFieldArgument", n, f, m, "") : m \in Ns(x) \ Ns(y) }
  \cup { C("ChangeFieldArgumentType", n, f, m, By(m, y).t) : m \in { z \in Ns(x) \cap Ns(y) : By(z, x).t # By(z, y).t } }
  \cup { C(IF By(m, x).d = "" THEN "AddFieldArgumentDefault" ELSE IF By(m, y).d = "" THEN "RemoveFieldArgumentDefault" ELSE "ChangeFieldArgumentDefault", n, f, m, By(m, y).d)
         : m \in { z \in Ns(x) \cap Ns(y) : By(z, x).d # By(z, y).d } }
Fields(n, k, x, y) ==
  { C("AddField", n, f, "", By(f, y)) : f \in Ns(y) \ Ns(x) }
  \cup { C("RemoveField", n, f, "", "") : f \in Ns(x) \ Ns(y) }
  \cup { C("ChangeFieldType", n, f, "", By(f, y).t) : f \in { z \in Ns(x) \cap Ns(y) : By(z, x).t # By(z, y).t } }
  \cup UNION { Args(n, f, By(f, x).args, By(f, y).args) : f \in Ns(x) \cap Ns(y) }
Inside(n, x, y) ==
  { C("AddInterfaceImplementation", n, "&" \o i, "", "") : i \in y.impl \ x.impl }
  \cup { C("RemoveInterfaceImplementation", n, "&" \o i, "", "") : i \in x.impl \ y.impl }
  \cup Fields(n, x.k, x.fields, y.fields)
  \cup { C("AddEnumValue", n, v, "", "") : v \in y.vals \ x.vals } \cup { C("RemoveEnumValue", n, v, "", "") : v \in x.vals \ y.vals }
  \cup { C("AddUnionMember", n, v, "", "") : v \in y.members \ x.members } \cup { C("RemoveUnionMember", n, v, "", "") : v \in x.members \ y.members }
Types(n, x, y) ==
  IF x.k = y.k THEN Inside(n, x, y)
  ELSE (IF x.k = "absent" THEN {} ELSE { C("Remove" \o Suffix(x.k), n, "", "", "") })
       \cup (IF y.k = "absent" THEN {} ELSE { C("Add" \o Suffix(y.k), n, "", "", y) })
Roots(x, y) ==
  IF ~x.here /\ ~y.here THEN {}
  ELSE IF ~x.here THEN { C("AddSchemaDefinition", ":schema", "", "", y) }
  ELSE IF ~y.here THEN { C("RemoveSchemaDefinition", ":schema", "", "", "") }
  ELSE (IF x.query # y.query THEN { C("ChangeQueryType", ":schema", "", "", y.query) } ELSE {})
       \cup (IF x.mutation # y.mutation THEN { C("ChangeMutationType", ":schema", "", "", y.mutation) } ELSE {})
       \cup (IF x.subscription # y.subscription THEN { C("ChangeSubscriptionType", ":schema", "", "", y.subscription) } ELSE {})
Changes(s, t) ==
  Roots(s.roots, t.roots)
  \* extensions are compared by their number: what both schemas have is taken for the same
  \cup { C("AddSchemaExtension", ExtName[i], "", "", "") : i \in (s.exts + 1)..t.exts } \cup { C("RemoveSchemaExtension", ExtName[i], "", "", "") : i \in (t.exts + 1)..s.exts }
  \cup UNION { Types(n, s.types[n], t.types[n]) : n \in Names }
  \cup { C("AddDirectiveDefinition", d, "", "@", "") : d \in t.dirs \ s.dirs } \cup { C("RemoveDirectiveDefinition", d, "", "@", "") : d \in s.dirs \ t.dirs }

\* ------------------------------------------------------------ applying it
PatchArgs(n, f, old, cs) ==
  LET mine == { c \in cs : c.n = n /\ c.f = f /\ c.a # "" }
      is(k, m) == \E c \in mine : c.k = k /\ c.a = m
      val(k, m) == (CHOOSE c \in mine : c.k = k /\ c.a = m).to
  IN { Arg(a.n, IF is("ChangeFieldArgumentType", a.n) THEN val("ChangeFieldArgumentType", a.n) ELSE a.t,
           IF is("AddFieldArgumentDefault", a.n) THEN val("AddFieldArgumentDefault", a.n)
           ELSE IF is("ChangeFieldArgumentDefault", a.n) THEN val("ChangeFieldArgumentDefault", a.n)
           ELSE IF is("RemoveFieldArgumentDefault", a.n) THEN "" ELSE a.d)
       : a \in { x \in old : ~is("RemoveFieldArgument", x.n) } }
     \cup { c.to : c \in { x \in mine : x.k = "AddFieldArgument" } }
PatchType(n, old, cs) ==
  LET mine == { c \in cs : c.n = n /\ c.a # "@" }
      added == { c \in mine : c.f = "" /\ c.k \in {"AddObjectType", "AddInterface", "AddInputObject", "AddEnum", "AddUnion", "AddScalar"} }
      removed == \E c \in mine : c.f = "" /\ c.k \in {"RemoveObjectType", "RemoveInterface", "RemoveInputObject", "RemoveEnum", "RemoveUnion", "RemoveScalar"}
      fs(k) == { c.f : c \in { x \in mine : x.k = k } }
  IN IF added # {} THEN (CHOOSE c \in added : TRUE).to
     ELSE IF removed THEN Absent
     ELSE [old EXCEPT
            !.impl = { i \in (@ \cup {"I", "J", "A", "B", "C"}) : (i \in @ /\ ("&" \o i) \notin fs("RemoveInterfaceImplementation")) \/ ("&" \o i) \in fs("AddInterfaceImplementation") },
            !.vals = (@ \ fs("RemoveEnumValue")) \cup fs("AddEnumValue"),
            !.members = (@ \ fs("RemoveUnionMember")) \cup fs("AddUnionMember"),
            !.fields = { LET ch == { c \in mine : c.k = "ChangeFieldType" /\ c.f = x.n } IN
                         Field(x.n, IF ch = {} THEN x.t ELSE (CHOOSE c \in ch : TRUE).to, PatchArgs(n, x.n, x.args, cs), x.d)
                         : x \in { y \in @ : y.n \notin fs("RemoveField") } }
                       \cup { c.to : c \in { x \in mine : x.k = "AddField" } } ]
PatchRoots(old, cs) ==
  LET mine == { c \in cs : c.n = ":schema" }
      is(k) == \E c \in mine : c.k = k
      val(k) == (CHOOSE c \in mine : c.k = k).to
  IN IF is("AddSchemaDefinition") THEN val("AddSchemaDefinition") ELSE IF is("RemoveSchemaDefinition") THEN NoRoots
     ELSE [old EXCEPT !.query = IF is("ChangeQueryType") THEN val("ChangeQueryType") ELSE @,
                      !.mutation = IF is("ChangeMutationType") THEN val("ChangeMutationType") ELSE @,
                      !.subscription = IF is("ChangeSubscriptionType") THEN val("ChangeSubscriptionType") ELSE @]
Patch(s, cs) ==
  WithExts([n \in Names |-> PatchType(n, s.types[n], cs)], PatchRoots(s.roots, cs),
         (s.dirs \ { c.n : c \in { x \in cs : x.k = "RemoveDirectiveDefinition" } }) \cup { c.n : c \in { x \in cs : x.k = "AddDirectiveDefinition" } },
         Cardinality({ i \in 1..s.exts : ~\E c \in cs : c.k = "RemoveSchemaExtension" /\ c.n = ExtName[i] }) + Cardinality({ c \in cs : c.k = "AddSchemaExtension" }))

\* Defaults of input fields are not compared.
Plain(s) == [s EXCEPT !.types = [n \in Names |-> [@[n] EXCEPT !.fields = { [x EXCEPT !.d = ""] : x \in @ }]]]
Complete == Plain(Patch(src, Changes(src, tgt))) = Plain(tgt)
OnlyIfDifferent == (Changes(src, tgt) = {}) = (Plain(src) = Plain(tgt))
Heads(cs) == { <<c.k, c.n, c.f, c.a>> : c \in cs }
Mirror(k) == \* what a change becomes when the schemas are swapped
  LET pairs == { <<"Add" \o x, "Remove" \o x>> : x \in {"ObjectType", "Interface", "InputObject", "Enum", "Union", "Scalar", "Field", "FieldArgument", "FieldArgumentDefault", "EnumValue",
                    "UnionMember", "InterfaceImplementation", "DirectiveDefinition", "SchemaDefinition", "SchemaExtension"} }
      hit == { p[2] : p \in { q \in pairs : q[1] = k } } \cup { p[1] : p \in { q \in pairs : q[2] = k } }
  IN IF hit = {} THEN k ELSE CHOOSE x \in hit : TRUE
Symmetric == Heads(Changes(tgt, src)) = { <<Mirror(h[1]), h[2], h[3], h[4]>> : h \in Heads(Changes(src, tgt)) }

\* ------------------------------------------------------------ catalogue
ArgSets == { {}, {Arg("x", "Int", "")}, {Arg("x", "Int", "1")}, {Arg("x", "Int", "2")}, {Arg("x", "String!", "")}, {Arg("x", "Int", ""), Arg("y", "[Int]", "")}, {Arg("y", "Int", "")} }
Fs == { Field("f", t, as, "") : t \in {"Int", "[B!]"}, as \in ArgSets }
G == Field("g", "Int", {Arg("x", "Int", "3")}, "")
Composites == { Def(k, i, fs, {}, {}) : k \in {"object", "interface"}, i \in {{}, {"I"}, {"I", "J"}, {"J"}}, fs \in { {f} : f \in Fs } \cup { {f, G} : f \in Fs } \cup { {G} } }
Inputs == { Def("input", {}, fs, {}, {}) : fs \in { {Field("f", "Int", {}, "")}, {Field("f", "Int", {}, "1")}, {Field("f", "Int!", {}, "1")}, {Field("f", "Int", {}, ""), Field("g", "B", {}, "")}, {Field("g", "B", {}, "")} } }
Others == { Def("enum", {}, {}, vs, {}) : vs \in (SUBSET {"f", "g"}) \ {{}} } \cup { Def("union", {}, {}, {}, ms) : ms \in (SUBSET {"B", "C"}) \ {{}} } \cup { Def("scalar", {}, {}, {}, {}), Absent }
Small == { d \in Composites : d.impl \in {{}, {"I"}} /\ Cardinality(d.fields) = 1 }
OneType == { Schema([n \in Names |-> IF n = "A" THEN d ELSE Absent], NoRoots, dirs) : d \in Inputs \cup Others \cup Small, dirs \in {{}, {"A"}} }
RootTypes == { Schema([n \in Names |-> IF n = "A" THEN Def("object", {}, {Field("f", "Int", {}, "")}, {}, {}) ELSE Absent], r, dirs)
            : r \in {NoRoots} \cup { [here |-> TRUE, query |-> q, mutation |-> m, subscription |-> s] : q \in {"", "A", "Q"}, m \in {"", "A", "M"}, s \in {"", "S"} }, dirs \in {{}, {"d"}} }
ExtCounts == { WithExts([n \in Names |-> IF n = "A" THEN Def("object", {}, {Field("f", "Int", {}, "")}, {}, {}) ELSE Absent], r, {}, x) :
               r \in {NoRoots, [here |-> TRUE, query |-> "A", mutation |-> "", subscription |-> ""]}, x \in 0..4 }
ValidRoots == ExtCounts \cup { s \in RootTypes : s.roots = NoRoots \/ s.roots.query # "" \/ s.roots.mutation # "" \/ s.roots.subscription # "" }
Catalogue == IF Mode = "types" THEN OneType ELSE ValidRoots

\* ------------------------------------------------------------ random pairs
W == 40
Rate == <<4, 12, 35>>[(dice'[1] % 3) + 1]
Die(side, k) == IF side = 2 /\ (dice'[3 * k + 3] % 100) < Rate THEN dice'[3 * k + 2] ELSE dice'[3 * k + 1]
N2(side, k, n) == Die(side, k) % n
OptS(c, x) == IF c THEN {x} ELSE {}
RType(x) == <<"Int", "Int!", "String", "[A]", "[A!]!", "[[B]]", "C">>[(x % 7) + 1]
RArgs(s, k) == OptS(N2(s, k, 3) = 0, Arg("x", RType(N2(s, k + 1, 97)), <<"", "1", "2">>[(N2(s, k + 1, 11) % 3) + 1])) \cup OptS(N2(s, k + 2, 4) = 0, Arg("y", RType(N2(s, k + 2, 89)), <<"", "[1, 2]">>[(N2(s, k + 2, 13) % 2) + 1]))
RField(s, k, n, input) == Field(n, RType(N2(s, k, 101)), IF input THEN {} ELSE RArgs(s, k + 1), IF input THEN <<"", "3">>[(N2(s, k, 7) % 2) + 1] ELSE "")
RFields(s, k, input) ==
  LET fs == OptS(N2(s, k, 10) < 7, RField(s, k + 1, "f", input)) \cup OptS(N2(s, k + 5, 10) < 6, RField(s, k + 6, "g", input)) \cup OptS(N2(s, k + 10, 10) < 4, RField(s, k + 11, "longer", input))
  IN IF fs = {} THEN {RField(s, k + 1, "f", input)} ELSE fs
RDef(s, k) ==
  LET kind == <<"object", "object", "interface", "input", "enum", "union", "scalar", "absent", "object">>[N2(s, k, 9) + 1] IN
  IF kind \in {"object", "interface"} THEN Def(kind, OptS(N2(s, k + 20, 3) = 0, "I") \cup OptS(N2(s, k + 21, 4) = 0, "J") \cup OptS(N2(s, k + 22, 5) = 0, "B"), RFields(s, k + 1, FALSE), {}, {})
  ELSE IF kind = "input" THEN Def(kind, {}, RFields(s, k + 1, TRUE), {}, {})
  ELSE IF kind = "enum" THEN Def(kind, {}, {}, {"f"} \cup OptS(N2(s, k + 1, 2) = 0, "g") \cup OptS(N2(s, k + 2, 2) = 0, "longer"), {})
  ELSE IF kind = "union" THEN Def(kind, {}, {}, {}, {"B"} \cup OptS(N2(s, k + 1, 2) = 0, "C") \cup OptS(N2(s, k + 2, 2) = 0, "X"))
  ELSE IF kind = "scalar" THEN Def(kind, {}, {}, {}, {})
  ELSE Absent
RRoots(s, k) == IF N2(s, k, 3) = 0 THEN NoRoots
  ELSE [here |-> TRUE, query |-> <<"A", "Q">>[N2(s, k + 1, 2) + 1], mutation |-> <<"", "B", "M">>[N2(s, k + 2, 3) + 1], subscription |-> <<"", "C">>[N2(s, k + 3, 2) + 1]]
RSchema(s) == WithExts([n \in Names |-> RDef(s, IF n = "A" THEN 10 ELSE IF n = "B" THEN 10 + W ELSE 10 + 2 * W)], RRoots(s, 0), OptS(N2(s, 5, 3) = 0, "d") \cup OptS(N2(s, 6, 5) = 0, "A"), <<0, 0, 0, 1, 1, 2, 3>>[N2(s, 7, 7) + 1])

Say(a, b) == PrintT("CASE " \o ToJson([src |-> a, tgt |-> b, changes |-> Heads(Changes(a, b))]))
Init == src = Empty /\ tgt = Empty /\ dice = <<>>
Pick ==
  /\ Mode # "random" /\ src = Empty /\ tgt = Empty
  /\ src' \in Catalogue /\ tgt' \in Catalogue
  /\ UNCHANGED dice /\ Say(src', tgt')
Throw ==
  /\ Mode = "random"
  /\ dice' = TLCEval([k \in 1..(3 * 140 + 4) |-> RandomElement(0..(99999 + Cardinality(src.dirs)))])
  /\ src' = TLCEval(RSchema(1)) /\ tgt' = TLCEval(RSchema(2))
  /\ Say(src', tgt')
Next == Pick \/ Throw
=============================================================================
