----------------------------- MODULE Validation ----------------------------
(* Validity of a GraphQL schema document (type system rules, October 2021  *)
(* edition, plus the draft rule about deprecated required inputs).         *)
(* The state is a valid document.  A step tries a random edit; the edited  *)
(* document is printed with its verdict and the rules it breaks, and it    *)
(* becomes the state if it breaks none.  A walk therefore visits valid     *)
(* documents and their invalid neighbours.                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
VARIABLES doc, said, dice

\* ------------------------------------------------------------ documents
Names == {"A", "B", "C", "D", "E", "F", "G", "Query", "Mutation", "__T", "Float"}
Builtins == {"Int", "String", "Float"}
Kinds == {"object", "interface", "union", "enum", "input", "scalar"}
Parts == 0..2                                       \* 0: the definition, 1 and 2: extensions
FieldNames == {"a", "b", "c", "__f"}
ArgNames == {"x", "y", "__x"}
ValueNames == {"V", "W", "__V"}
Under == {"__T", "__f", "__x", "__V", "__d"}
Dirs == 1..2                                        \* two directives; the second is named @__d in some documents
Locations == {"SCHEMA", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"}
NoDirs == [d \in Dirs |-> FALSE]
\* wrappers, from the inside out: N non-null, L list
Wraps == { <<>>, <<"N">>, <<"L">>, <<"L", "N">>, <<"N", "L">>, <<"N", "L", "N">>, <<"L", "L">>, <<"N", "L", "L">> }
NonNull(w) == w # <<>> /\ w[Len(w)] = "N"
IsList(w) == Len(w) > 0 /\ (w[Len(w)] = "L" \/ (Len(w) > 1 /\ w[Len(w) - 1] = "L"))

\* An element of part p of type t: a field (f: 0), an argument of the field f, a value, a member, an implemented interface.
El(id, t, p, e, f, n, b, w) == [id |-> id, t |-> t, p |-> p, e |-> e, f |-> f, n |-> n, b |-> b, w |-> w, dv |-> FALSE, dep |-> FALSE, ds |-> NoDirs]
Sch(x, q, m, s) == [ext |-> x, q |-> q, m |-> m, s |-> s, ds |-> NoDirs]
Empty(strict, draft) ==
  [strict |-> strict, draft |-> draft,
   part |-> [t \in Names |-> [p \in Parts |-> "none"]],
   tds |-> [t \in Names |-> [p \in Parts |-> NoDirs]],
   dupe |-> {}, els |-> {}, sch |-> <<>>,
   dd |-> [d \in Dirs |-> [on |-> FALSE, n |-> d, locs |-> Locations, dup |-> FALSE, args |-> <<>>]], next |-> 1]

Els(D, t, e) == { x \in D.els : x.t = t /\ x.e = e }
ArgsOf(D, f) == { x \in D.els : x.e = "arg" /\ x.f = f }
Field(D, id) == CHOOSE x \in D.els : x.id = id
HasBase(D, t) == D.part[t][0] # "none"
HasExt(D, t) == \E p \in 1..2 : D.part[t][p] # "none"
\* The kind of a name.  Extensions stand for the type when unknown types may be extended.
Kind(D, t) ==
  IF t \notin Names THEN (IF t \in Builtins THEN "scalar" ELSE "none")
  ELSE IF t \in Builtins THEN "scalar"
  ELSE IF HasBase(D, t) THEN D.part[t][0]
  ELSE IF ~D.strict /\ HasExt(D, t) THEN (IF D.part[t][1] # "none" THEN D.part[t][1] ELSE D.part[t][2])
  ELSE "none"
Present(D, t) == HasBase(D, t) \/ HasExt(D, t)
\* Only extensions of the type are known.
Partial(D, t) == t \in Names /\ ~HasBase(D, t) /\ t \notin Builtins
Output == {"object", "interface", "union", "enum", "scalar"}
Input == {"enum", "input", "scalar"}
Implemented(D, t) == { x.n : x \in Els(D, t, "impl") }

\* ------------------------------------------------------------ rules
Reserved(D) == \/ \E t \in Names : t \in Under /\ Present(D, t)
               \/ \E x \in D.els : x.e \in {"field", "arg", "value"} /\ x.n \in Under
               \/ \E d \in Dirs : D.dd[d].on /\ (D.dd[d].n = 3 \/ \E i \in 1..Len(D.dd[d].args) : D.dd[d].args[i].n \in Under)
Repeated(S) == \E x, y \in S : x.id # y.id /\ x.n = y.n
SameName(D) == \/ D.dupe # {}
               \/ \E t \in Names : \E e \in {"field", "value", "member", "impl"} : Repeated(Els(D, t, e))
               \/ \E x \in D.els : x.e = "field" /\ Repeated(ArgsOf(D, x.id))
               \/ \E d \in Dirs : D.dd[d].on /\ (D.dd[d].dup \/ (Len(D.dd[d].args) = 2 /\ D.dd[d].args[1].n = D.dd[d].args[2].n))
BuiltinName(D) == \E t \in Names \cap Builtins : D.part[t][0] \notin {"none", "scalar"}
BadExtension(D) == \E t \in Names : \E p \in 1..2 :
  LET k == D.part[t][p] IN
  k # "none" /\ ( IF t \in Builtins THEN k # "scalar"
                  ELSE IF HasBase(D, t) THEN k # D.part[t][0]
                  ELSE D.strict \/ \E q \in 1..2 : D.part[t][q] \notin {"none", k} )
UnknownType(D) == \/ \E x \in D.els : x.e \in {"field", "arg"} /\ Kind(D, x.b) = "none"
                  \/ \E x \in D.els : x.e \in {"member", "impl"} /\ Kind(D, x.n) = "none"
                  \/ \E d \in Dirs : D.dd[d].on /\ \E i \in 1..Len(D.dd[d].args) : Kind(D, D.dd[d].args[i].b) = "none"
InInput(D, x) == x.e = "arg" \/ \E p \in Parts : p = x.p /\ D.part[x.t][p] = "input"
Misplaced(D) == \/ \E x \in D.els : x.e \in {"field", "arg"} /\ Kind(D, x.b) # "none" /\ Kind(D, x.b) \notin (IF InInput(D, x) THEN Input ELSE Output)
                \/ \E d \in Dirs : D.dd[d].on /\ \E i \in 1..Len(D.dd[d].args) : Kind(D, D.dd[d].args[i].b) \notin Input \cup {"none"}
                \/ \E x \in D.els : x.e = "member" /\ Kind(D, x.n) \notin {"none", "object"}
                \/ \E x \in D.els : x.e = "impl" /\ Kind(D, x.n) \notin {"none", "interface"}
ElementOf(k) == CASE k \in {"object", "interface", "input"} -> "field" [] k = "enum" -> "value" [] k = "union" -> "member" [] OTHER -> ""
NoElements(D) == \E t \in Names \ Builtins : HasBase(D, t) /\ ElementOf(D.part[t][0]) # "" /\ Els(D, t, ElementOf(D.part[t][0])) = {}

RECURSIVE SubWraps(_, _)
SubWraps(c, i) == \* c: of the implementation, i: of the interface
  IF NonNull(c) THEN SubWraps(SubSeq(c, 1, Len(c) - 1), IF NonNull(i) THEN SubSeq(i, 1, Len(i) - 1) ELSE i)
  ELSE IF NonNull(i) THEN FALSE
  ELSE IF c = <<>> \/ i = <<>> THEN c = i
  ELSE SubWraps(SubSeq(c, 1, Len(c) - 1), SubSeq(i, 1, Len(i) - 1))
SubName(D, c, i) == c = i \/ (Kind(D, i) = "union" /\ \E x \in Els(D, i, "member") : x.n = c)
                          \/ (Kind(D, i) = "interface" /\ Kind(D, c) \in {"object", "interface"} /\ i \in Implemented(D, c))
MayBeSubName(D, c, i) == SubName(D, c, i) \/ (Kind(D, i) \in {"union", "interface"} /\ Kind(D, c) \in {"object", "interface"} /\ (Partial(D, c) \/ Partial(D, i)))
Implements(D) == { <<t, i>> \in Names \X Names : HasBase(D, t) /\ Kind(D, t) \in {"object", "interface"} /\ i \in Implemented(D, t) /\ Kind(D, i) = "interface" }
ImplementsItself(D) == \E t \in Names : t \in Implemented(D, t)
NotTransitive(D) == \E q \in Implements(D) : ~(Implemented(D, q[2]) \subseteq Implemented(D, q[1]))
Missing(D) == \E q \in Implements(D) : \E g \in Els(D, q[2], "field") : ~\E f \in Els(D, q[1], "field") : f.n = g.n
Pairs(D) == UNION { { <<f, g>> \in Els(D, q[1], "field") \X Els(D, q[2], "field") : f.n = g.n } : q \in Implements(D) }
NotSubtype(D) == \E q \in Pairs(D) : ~(SubWraps(q[1].w, q[2].w) /\ MayBeSubName(D, q[1].b, q[2].b))
WrongArguments(D) == \E q \in Pairs(D) :
  \/ \E a \in ArgsOf(D, q[2].id) : ~\E b \in ArgsOf(D, q[1].id) : b.n = a.n /\ b.b = a.b /\ b.w = a.w
  \/ \E b \in ArgsOf(D, q[1].id) : NonNull(b.w) /\ ~b.dv /\ ~\E a \in ArgsOf(D, q[2].id) : a.n = b.n
Needs(D) == { <<x.t, x.b>> : x \in { y \in D.els : y.e = "field" /\ Kind(D, y.t) = "input" /\ NonNull(y.w) /\ ~IsList(y.w) /\ Kind(D, y.b) = "input" } }
RECURSIVE Reach(_, _)
Reach(R, S) == LET more == S \cup { q[2] : q \in { r \in R : r[1] \in S } } IN IF more = S THEN S ELSE Reach(R, more)
InputCycle(D) == LET R == Needs(D) IN \E t \in { q[1] : q \in R } : t \in Reach(R, { q[2] : q \in { r \in R : r[1] = t } })

Given(D, o) == { D.sch[i][o] : i \in 1..Len(D.sch) } \ {"none"}
Times(D, o) == Cardinality({ i \in 1..Len(D.sch) : D.sch[i][o] # "none" })
Default(o) == CASE o = "q" -> "Query" [] o = "m" -> "Mutation" [] OTHER -> "Subscription"
Defined(D) == \E i \in 1..Len(D.sch) : ~D.sch[i].ext
RootTypes(D) == UNION { Given(D, o) : o \in {"q", "m", "s"} }
BadRoots(D) ==
  \/ Cardinality({ i \in 1..Len(D.sch) : ~D.sch[i].ext }) > 1
  \/ \E o \in {"q", "m", "s"} : Times(D, o) > 1
  \/ \E o, u \in {"q", "m", "s"} : o # u /\ Given(D, o) \cap Given(D, u) # {}
  \/ \E t \in RootTypes(D) : Kind(D, t) # "object"
  \/ (~Defined(D) /\ \E o \in {"q", "m", "s"} : Given(D, o) = {} /\ Kind(D, Default(o)) \notin {"none", "object"})
Location(k) == CASE k = "object" -> "OBJECT" [] k = "interface" -> "INTERFACE" [] k = "union" -> "UNION" [] k = "enum" -> "ENUM" [] k = "input" -> "INPUT_OBJECT" [] OTHER -> "SCALAR"
ElLocation(D, x) == IF x.e = "arg" THEN "ARGUMENT_DEFINITION" ELSE IF x.e = "value" THEN "ENUM_VALUE" ELSE IF InInput(D, x) THEN "INPUT_FIELD_DEFINITION" ELSE "FIELD_DEFINITION"
\* where a directive stands
Sites(D, d) == { ElLocation(D, x) : x \in { y \in D.els : y.ds[d] } }
          \cup { Location(D.part[q[1]][q[2]]) : q \in { r \in Names \X Parts : D.part[r[1]][r[2]] # "none" /\ D.tds[r[1]][r[2]][d] } }
          \cup (IF \E i \in 1..Len(D.sch) : D.sch[i].ds[d] THEN {"SCHEMA"} ELSE {})
          \cup (IF \E e \in Dirs : D.dd[e].on /\ \E i \in 1..Len(D.dd[e].args) : D.dd[e].args[i].ds[d] THEN {"ARGUMENT_DEFINITION"} ELSE {})
MisplacedDirective(D) == \E d \in Dirs : D.dd[d].on /\ ~(Sites(D, d) \subseteq D.dd[d].locs)
DeprecatedRequired(D) == D.draft /\ \E x \in D.els : x.dep /\ (x.e = "arg" \/ InInput(D, x)) /\ NonNull(x.w) /\ ~x.dv

Rules == {"reserved", "same-name", "builtin-name", "bad-extension", "unknown-type", "misplaced", "no-elements", "implements-itself", "not-transitive",
          "missing-field", "not-subtype", "wrong-arguments", "input-cycle", "bad-roots", "misplaced-directive", "deprecated-required"}
Broken(D) == { r \in Rules : CASE r = "reserved" -> Reserved(D) [] r = "same-name" -> SameName(D) [] r = "builtin-name" -> BuiltinName(D) [] r = "bad-extension" -> BadExtension(D)
                 [] r = "unknown-type" -> UnknownType(D) [] r = "misplaced" -> Misplaced(D) [] r = "no-elements" -> NoElements(D) [] r = "implements-itself" -> ImplementsItself(D)
                 [] r = "not-transitive" -> NotTransitive(D) [] r = "missing-field" -> Missing(D) [] r = "not-subtype" -> NotSubtype(D) [] r = "wrong-arguments" -> WrongArguments(D)
                 [] r = "input-cycle" -> InputCycle(D) [] r = "bad-roots" -> BadRoots(D) [] r = "misplaced-directive" -> MisplacedDirective(D) [] OTHER -> DeprecatedRequired(D) }
\* Documents that are neither valid nor invalid: part of what decides is unknown, or a rule outside this module (self-referencing directives) could apply.
Open(D) == \/ \E q \in Pairs(D) : ~SubName(D, q[1].b, q[2].b)
           \/ (~Defined(D) /\ \E o \in {"q", "m", "s"} : Given(D, o) = {} /\ Default(o) \in RootTypes(D))
           \/ \E d, e \in Dirs : D.dd[d].on /\ \E i \in 1..Len(D.dd[d].args) : \/ D.dd[d].args[i].ds[d]
                                                                     \/ (D.dd[d].args[i].ds[e] /\ e < d)
                                                                     \/ (D.dd[d].args[i].b \notin Builtins /\ Sites(D, e) \cap {"INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "ENUM", "ENUM_VALUE", "SCALAR"} # {})
Verdict(D) == IF Broken(D) # {} THEN "invalid" ELSE IF Open(D) THEN "open" ELSE "valid"

\* ------------------------------------------------------------ edits
Roll(k, n) == dice[k] % n
Chance(k, n) == dice[k] % n = 0
Pick(S, k) == LET q == SetToSeq(S) IN q[(dice[k] % Len(q)) + 1]
HereParts(D, t) == { p \in Parts : D.part[t][p] # "none" }
PartsOf(D, ks) == { <<t, p>> \in Names \X Parts : D.part[t][p] \in ks }
Rare(S, used) == IF Chance(12, 14) THEN S ELSE IF Chance(12, 7) \/ S \subseteq used \cup Under THEN S \ Under ELSE S \ (used \cup Under)
Taken(D, t, e) == { x.n : x \in Els(D, t, e) }
TypeFor(D, input, k) == \* mostly a type that fits
  LET fits == Builtins \cup { t \in Names : Kind(D, t) \in (IF input THEN Input ELSE Output) }
      all == Names \cup {"Int", "Zz"}
  IN IF Chance(k, 6) THEN Pick(all, k + 1) ELSE Pick(IF fits \ Builtins # {} /\ ~Chance(k, 3) THEN fits \ Builtins ELSE fits, k + 1)
Add(D, x) == [D EXCEPT !.els = @ \cup {x}, !.next = @ + 1]
First(D, t, p, k) == \* the first element of a type
  LET id == D.next
      e == CASE k \in {"object", "interface"} -> El(id, t, p, "field", 0, Pick(Rare(FieldNames, Taken(D, t, "field")), 6), TypeFor(D, FALSE, 7), Pick(Wraps, 9))
            [] k = "input" -> LET ins == { n \in Names : Kind(D, n) = "input" } IN
                 El(id, t, p, "field", 0, Pick(Rare(FieldNames, Taken(D, t, "field")), 6), IF ins # {} /\ Chance(7, 2) THEN Pick(ins, 8) ELSE TypeFor(D, TRUE, 7), IF Chance(7, 2) THEN <<"N">> ELSE Pick(Wraps, 9))
            [] k = "enum" -> El(id, t, p, "value", 0, Pick(Rare(ValueNames, Taken(D, t, "value")), 6), "", <<>>)
            [] OTHER -> LET os == { o \in Names : Kind(D, o) = "object" } \ (IF Chance(9, 6) THEN {} ELSE Taken(D, t, "member")) IN El(id, t, p, "member", 0, IF os = {} \/ Chance(7, 5) THEN Pick(Names, 8) ELSE Pick(os, 8), "", <<>>)
  IN IF ElementOf(k) = "" \/ Chance(10, 8) THEN D ELSE Add(D, e)
NewType(D) ==
  LET absent == { t \in Names : ~Present(D, t) /\ (t \notin Under \cup Builtins \/ Chance(11, 8)) }  t == Pick(absent, 2)
      k == IF t \in {"Query", "Mutation"} /\ ~Chance(3, 4) THEN "object" ELSE IF Chance(3, 3) THEN "interface" ELSE Pick(Kinds, 4)
      p == IF Chance(5, 5) THEN 1 ELSE 0
  IN IF absent = {} THEN D ELSE First([D EXCEPT !.part[t][p] = k], t, p, k)
NewExtension(D) ==
  LET t == Pick(IF Chance(11, 20) THEN Names ELSE { n \in Names : Present(D, n) } \cup {"A"}, 2)
      k == IF Chance(3, 6) THEN Pick(Kinds, 4) ELSE IF Kind(D, t) = "none" THEN Pick(Kinds, 4) ELSE Kind(D, t)
      p == IF D.part[t][1] # "none" THEN 2 ELSE 1
  IN IF D.part[t][p] # "none" THEN D ELSE IF k = "scalar" THEN [D EXCEPT !.part[t][p] = k, !.tds[t][p][1] = TRUE] ELSE First([D EXCEPT !.part[t][p] = k], t, p, k)
NewBase(D) == LET S == { n \in Names : HasExt(D, n) /\ ~HasBase(D, n) }  t == Pick(S, 2)  k == IF Chance(3, 6) THEN Pick(Kinds, 4) ELSE Kind([D EXCEPT !.strict = FALSE], t)
              IN IF S = {} THEN D ELSE First([D EXCEPT !.part[t][0] = k], t, 0, k)
AddElement(D) ==
  LET S == PartsOf(D, Kinds \ {"scalar"})  q == Pick(S, 2)  k == D.part[q[1]][q[2]]
      D2 == First(D, q[1], q[2], k)
  IN IF S = {} THEN D ELSE D2
AddArgument(D) ==
  LET S == { x \in D.els : x.e = "field" /\ ~InInput(D, x) }  f == Pick(S, 2)
      x == El(D.next, f.t, f.p, "arg", f.id, Pick(Rare(ArgNames, { a.n : a \in ArgsOf(D, f.id) }), 3), TypeFor(D, TRUE, 4), Pick(Wraps, 6))
  IN IF S = {} THEN D ELSE Add(D, [x EXCEPT !.dv = Chance(7, 3)])
\* implement an interface, mostly with the interfaces it implements and the fields it needs (with variations of the types)
Implement(D) ==
  LET S == PartsOf(D, {"object", "interface"})  q == Pick(S, 2)
      is == { n \in Names : Kind(D, n) = "interface" } \ (IF Chance(9, 10) THEN {} ELSE {q[1]} \cup Implemented(D, q[1]))
      i == IF is = {} \/ Chance(3, 12) THEN Pick(Names, 4) ELSE Pick(is, 4)
      t == q[1]
      wanted == ({i} \cup (IF Chance(5, 4) THEN {} ELSE Implemented(D, i))) \ Implemented(D, t)
      ws == SetToSeq(IF Chance(7, 8) THEN {i} ELSE wanted)
      have == { x.n : x \in Els(D, t, "field") }
      need == { x \in Els(D, i, "field") : x.n \notin have }
      ns == SetToSeq(need)
      base(x) == LET subs == { n \in Names : SubName(D, n, x.b) } IN IF subs = {} \/ Chance(8, 3) THEN x.b ELSE Pick(subs, 9)
      wrap(x) == LET subs == { w \in Wraps : SubWraps(w, x.w) } IN IF Chance(6, 8) THEN Pick(Wraps, 8) ELSE IF Chance(6, 3) THEN x.w ELSE Pick(subs, 8)
      as(x) == SetToSeq(ArgsOf(D, x.id))
      n0 == D.next  n1 == n0 + Len(ws)  n2 == n1 + Len(ns)
      impls == { El(n0 + j - 1, t, q[2], "impl", 0, ws[j], "", <<>>) : j \in 1..Len(ws) }
      fields == { El(n1 + j - 1, t, IF HasBase(D, t) /\ Chance(11, 3) THEN 0 ELSE q[2], "field", 0, ns[j].n, base(ns[j]), wrap(ns[j])) : j \in 1..Len(ns) }
      args == UNION { LET a == as(ns[j]) IN { [El(n2 + 3 * (j - 1) + (u - 1), t, 0, "arg", n1 + j - 1, a[u].n, a[u].b, a[u].w) EXCEPT !.dv = a[u].dv] : u \in 1..Min({Len(a), 3}) } : j \in 1..Len(ns) }
  IN IF S = {} THEN D ELSE [D EXCEPT !.els = @ \cup impls \cup (IF Chance(10, 10) THEN {} ELSE fields \cup (IF Chance(10, 9) THEN {} ELSE args)), !.next = n2 + 3 * Len(ns) + 3]
Some(D, es) == { x \in D.els : x.e \in es }
RemoveElement(D) == LET S == IF Chance(3, 2) THEN D.els ELSE Some(D, {"impl"})  x == Pick(S, 2) IN IF S = {} THEN D ELSE [D EXCEPT !.els = { y \in @ : y.id # x.id /\ y.f # x.id }]
RemovePart(D) == LET S == PartsOf(D, Kinds)  q == Pick(S, 2) IN
  IF S = {} THEN D ELSE LET gone == { x.id : x \in { y \in D.els : y.t = q[1] /\ y.p = q[2] /\ y.e # "arg" } } IN
  [D EXCEPT !.part[q[1]][q[2]] = "none", !.tds[q[1]][q[2]] = NoDirs, !.dupe = @ \ {q[1]}, !.els = { y \in @ : y.id \notin gone /\ y.f \notin gone }]
Change(D, x, y) == [D EXCEPT !.els = (@ \ {x}) \cup {y}]
Retype(D) == LET S == Some(D, {"field", "arg"})  x == Pick(S, 2) IN
  IF S = {} THEN D ELSE Change(D, x, IF Chance(3, 2) THEN [x EXCEPT !.w = Pick(Wraps, 4)] ELSE [x EXCEPT !.b = TypeFor(D, InInput(D, x), 5)])
Rename(D) == LET x == Pick(D.els, 2) IN IF D.els = {} THEN D ELSE Change(D, x, [x EXCEPT !.n =
  CASE x.e = "field" -> Pick(Rare(FieldNames, Taken(D, x.t, "field")), 3) [] x.e = "arg" -> Pick(Rare(ArgNames, {}), 3) [] x.e = "value" -> Pick(Rare(ValueNames, Taken(D, x.t, "value")), 3) [] OTHER -> Pick(Names \cup {"Zz", "Int"}, 3)])
Move(D) == LET S == { x \in Some(D, {"field", "value", "member", "impl"}) : Cardinality(HereParts(D, x.t)) > 1 }  x == Pick(S, 2) IN
  IF S = {} THEN D ELSE Change(D, x, [x EXCEPT !.p = Pick(HereParts(D, x.t) \ {x.p}, 3)])
Defaults(D) == LET S == { x \in Some(D, {"field", "arg"}) : InInput(D, x) }  x == Pick(S, 2) IN
  IF S = {} THEN D ELSE Change(D, x, IF Chance(3, 2) THEN [x EXCEPT !.dv = ~@] ELSE [x EXCEPT !.dep = ~@])
Directive(D) == LET d == Pick(Dirs, 2)  e == D.dd[d] IN
  IF ~e.on THEN [D EXCEPT !.dd[d].on = TRUE, !.dd[d].n = d]
  ELSE LET r == Roll(3, 8) IN
  CASE r = 0 -> [D EXCEPT !.dd[d].on = FALSE]
    [] r \in {1, 2, 3} -> LET l == Pick(Locations, 4) IN [D EXCEPT !.dd[d].locs = IF l \in @ THEN (IF Cardinality(@) > 1 THEN @ \ {l} ELSE @) ELSE @ \cup {l}]
    [] r = 4 -> [D EXCEPT !.dd[d].dup = TRUE]
    [] r = 5 -> [D EXCEPT !.dd[d].n = 3]
    [] r = 6 -> [D EXCEPT !.dd[d].args = IF Len(@) = 2 THEN <<>> ELSE Append(@, [n |-> Pick(Rare(ArgNames, { D.dd[d].args[i].n : i \in 1..Len(D.dd[d].args) }), 4), b |-> TypeFor(D, TRUE, 5), w |-> Pick(Wraps, 7), ds |-> NoDirs])]
    [] OTHER -> IF Len(e.args) = 0 THEN D ELSE [D EXCEPT !.dd[d].args[1].ds[Pick(Dirs, 4)] = ~@]
UseDirective(D) == LET d == Pick(Dirs, 2)  r == Roll(3, 5)  P == PartsOf(D, Kinds)  S == Some(D, {"field", "arg", "value"}) IN
  IF r = 0 /\ Len(D.sch) > 0 THEN [D EXCEPT !.sch[Len(D.sch)].ds[d] = ~@]
  ELSE IF r \in {1, 2} /\ P # {} THEN LET q == Pick(P, 4) IN [D EXCEPT !.tds[q[1]][q[2]][d] = ~@]
  ELSE IF S # {} THEN LET x == Pick(S, 4) IN Change(D, x, [x EXCEPT !.ds[d] = ~@]) ELSE D
Root(D, k) == LET os == { t \in Names : Kind(D, t) = "object" } IN IF os = {} \/ Chance(k, 8) THEN Pick(Names \cup {"Zz", "Int"}, k + 1) ELSE Pick(os, k + 1)
Maybe(D, k) == IF Chance(k + 2, 2) THEN "none" ELSE Root(D, k)
Schema(D) == LET r == Roll(2, 6)  n == Len(D.sch) IN
  CASE r = 0 /\ n > 0 -> [D EXCEPT !.sch = SubSeq(@, 1, n - 1)]
    [] r \in {1, 2} /\ n > 0 -> LET i == Roll(3, n) + 1  o == Pick(IF D.sch[i].ext THEN {"q", "m", "s"} ELSE {"m", "s"}, 4) IN [D EXCEPT !.sch[i][o] = Maybe(D, 5)]
    [] n < 3 -> IF Chance(11, 2) THEN [D EXCEPT !.sch = Append(@, Sch(TRUE, Maybe(D, 3), Maybe(D, 5), Maybe(D, 7)))]
                ELSE [D EXCEPT !.sch = Append(@, Sch(FALSE, Root(D, 3), Maybe(D, 5), Maybe(D, 7)))]
    [] OTHER -> D
Dupe(D) == LET S == { t \in Names : HasBase(D, t) /\ t \notin Builtins }  t == Pick(S, 2) IN IF S = {} THEN D ELSE [D EXCEPT !.dupe = {t}]

\* take away or change something that an implemented interface asks for
Damage(D) ==
  LET S == Pairs(D)  q == Pick(S, 2)  r == Roll(3, 6)
      asked == { a \in ArgsOf(D, q[1].id) : \E b \in ArgsOf(D, q[2].id) : a.n = b.n }
      both == { x \in Some(D, {"impl"}) : \E y \in Els(D, x.t, "impl") : x.n \in Implemented(D, y.n) }
  IN IF S = {} THEN D
     ELSE CASE r = 0 -> [D EXCEPT !.els = { y \in @ : y.id # q[1].id /\ y.f # q[1].id }]
            [] r = 1 /\ asked # {} -> LET a == Pick(asked, 4) IN [D EXCEPT !.els = @ \ {a}]
            [] r = 2 /\ asked # {} -> LET a == Pick(asked, 4) IN Change(D, a, IF Chance(5, 2) THEN [a EXCEPT !.w = Pick(Wraps, 6)] ELSE [a EXCEPT !.b = TypeFor(D, TRUE, 6)])
            [] r \in {1, 2, 3} -> Add(D, [El(D.next, q[1].t, 0, "arg", q[1].id, Pick(Rare(ArgNames, { a.n : a \in ArgsOf(D, q[1].id) }), 5), Pick(Builtins, 6), IF Chance(7, 3) THEN <<>> ELSE <<"N">>) EXCEPT !.dv = Chance(8, 2)])
            [] r = 4 /\ both # {} -> LET x == Pick(both, 4) IN [D EXCEPT !.els = @ \ {x}]
            [] OTHER -> Change(D, q[2], IF Chance(5, 2) THEN [q[2] EXCEPT !.w = Pick(Wraps, 6)] ELSE [q[2] EXCEPT !.b = TypeFor(D, FALSE, 6)])

\* let an input field need the values of an input type that needs those of the field's own
CloseCycle(D) ==
  LET R == Needs(D)
      ins == { t \in Names : Kind(D, t) = "input" }
      S == { <<x, t>> \in { y \in D.els : y.e = "field" /\ Kind(D, y.t) = "input" } \X ins : x.t \in Reach(R, {t}) }
      far == { q \in S : q[1].t # q[2] }
      q == Pick(IF far = {} \/ Chance(2, 5) THEN S ELSE far, 3)
  IN IF S = {} THEN D ELSE Change(D, q[1], [q[1] EXCEPT !.b = q[2], !.w = IF Chance(7, 4) THEN Pick(Wraps, 8) ELSE <<"N">>, !.dep = Chance(4, 2), !.dv = Chance(5, 2), !.ds[1] = IF Chance(6, 4) THEN D.dd[1].on ELSE @])

Edit(D) == LET r == Roll(1, 56) IN
  CASE r \in 0..4 -> NewType(D) [] r \in 5..7 -> NewExtension(D) [] r = 8 -> NewBase(D) [] r \in 9..13 -> AddElement(D) [] r \in 14..16 -> AddArgument(D)
    [] r \in 17..22 -> Implement(D) [] r \in 23..24 -> RemoveElement(D) [] r = 25 -> RemovePart(D) [] r \in 26..29 -> Retype(D) [] r \in 30..31 -> Rename(D)
    [] r \in 32..33 -> Move(D) [] r \in 34..35 -> Defaults(D) [] r \in 36..37 -> Directive(D) [] r \in 38..40 -> UseDirective(D) [] r \in 41..42 -> Schema(D) [] r = 43 -> Dupe(D)
    [] r \in 44..45 -> RemoveElement(D) [] r \in 46..53 -> Damage(D) [] r = 54 -> CloseCycle(D) [] OTHER -> Directive(D)
\* Every part of a document must be sayable: an extension gives something.
Sayable(D) == \A t \in Names : \A p \in 1..2 : D.part[t][p] # "none" =>
                (\E d \in Dirs : D.tds[t][p][d]) \/ (\E x \in D.els : x.t = t /\ x.p = p /\ x.e \in {"field", "value", "member"})
                  \/ (D.part[t][p] = "object" /\ \E x \in D.els : x.t = t /\ x.p = p /\ x.e = "impl")
Sayables(D) == Sayable(D) /\ \A i \in 1..Len(D.sch) : D.sch[i].ext => (D.sch[i].q # "none" \/ D.sch[i].m # "none" \/ D.sch[i].s # "none" \/ \E d \in Dirs : D.sch[i].ds[d])
\* elements belong to parts of a kind that can hold them
Fits(D) == \A x \in D.els : x.e # "arg" => LET k == D.part[x.t][x.p] IN k # "none" /\ (IF x.e = "impl" THEN k \in {"object", "interface"} ELSE ElementOf(k) = x.e)

Say(D, v) == [strict |-> D.strict, draft |-> D.draft, verdict |-> v, broken |-> Broken(D), part |-> D.part, tds |-> D.tds, dupe |-> D.dupe, els |-> D.els, sch |-> D.sch, dd |-> D.dd]
Blank == [k \in 1..12 |-> 0]
\* Start from nothing, from a hierarchy of interfaces, or from input types that refer to each other.
Hierarchy(D) ==
  LET f(id, t, n, b, w) == El(id, t, 0, "field", 0, n, b, w)  i(id, t, n) == El(id, t, 0, "impl", 0, n, "", <<>>)  a(id, t, fid, n) == El(id, t, 0, "arg", fid, n, "Int", <<>>)
  IN [D EXCEPT !.part = [t \in Names |-> [p \in Parts |-> IF p # 0 THEN "none" ELSE CASE t \in {"A", "B"} -> "interface" [] t \in {"C", "Query"} -> "object" [] OTHER -> "none"]],
               !.els = {f(1, "A", "a", "Int", <<>>), a(2, "A", 1, "x"), f(3, "A", "b", "A", <<"L">>), i(4, "B", "A"), f(5, "B", "a", "Int", <<>>), a(6, "B", 5, "x"), f(7, "B", "b", "A", <<"L">>),
                        i(8, "C", "A"), i(9, "C", "B"), f(10, "C", "a", "Int", <<"N">>), a(11, "C", 10, "x"), f(12, "C", "b", "C", <<"L">>), f(13, "Query", "c", "B", <<>>)}, !.next = 20]
Inputs(D) ==
  LET f(id, t, n, b, w) == El(id, t, 0, "field", 0, n, b, w)
  IN [D EXCEPT !.part = [t \in Names |-> [p \in Parts |-> IF p # 0 THEN "none" ELSE CASE t \in {"A", "B", "C"} -> "input" [] t = "D" -> "enum" [] t = "Query" -> "object" [] OTHER -> "none"]],
               !.els = {f(1, "A", "a", "B", <<"N">>), f(2, "A", "b", "D", <<>>), f(3, "B", "a", "C", <<"N">>), f(4, "B", "b", "A", <<>>), f(5, "C", "a", "A", <<"N", "L", "N">>), f(6, "C", "b", "Int", <<"N">>),
                        El(7, "D", 0, "value", 0, "V", "", <<>>), f(8, "Query", "a", "Int", <<>>), El(9, "Query", 0, "arg", 8, "x", "A", <<"N">>)}, !.next = 20]
Init == doc \in UNION { {Empty(s, d), Hierarchy(Empty(s, d)), Inputs(Empty(s, d))} : s, d \in BOOLEAN } /\ dice = Blank /\ said = {}
Next ==
  /\ dice' = TLCEval([k \in 1..12 |-> RandomElement(0..(99999 + Cardinality(doc.els)))])
  /\ LET D == TLCEval(Edit(doc)) IN
     IF D = doc \/ ~Sayables(D) \/ ~Fits(D) THEN doc' = doc /\ said' = {}
     ELSE LET b == TLCEval(Broken(D)) IN
          /\ said' = b
          /\ doc' = IF b = {} THEN D ELSE doc
          /\ PrintT("CASE " \o ToJson(Say(D, IF b # {} THEN "invalid" ELSE IF Open(D) THEN "open" ELSE "valid")))

\* ------------------------------------------------------------ what valid documents have
\* Extensions are only a way to write a document: merged into their definitions, a document has the same verdict.
Merged(D) == [D EXCEPT !.els = { [x EXCEPT !.p = IF HasBase(D, x.t) THEN 0 ELSE x.p] : x \in @ },
                       !.part = [t \in Names |-> [p \in Parts |-> IF p # 0 /\ HasBase(D, t) THEN "none" ELSE D.part[t][p]]],
                       !.tds = [t \in Names |-> [p \in Parts |-> IF ~HasBase(D, t) THEN D.tds[t][p] ELSE IF p = 0 THEN [d \in Dirs |-> \E q \in Parts : D.tds[t][q][d]] ELSE NoDirs]]]
ExtensionsAreSyntax == Broken(Merged(doc)) = {}
\* Every object and interface can stand for all interfaces that it implements, directly or not, and no interface stands above itself.
Substitutable == \A t \in Names : HasBase(doc, t) =>
  LET up == Reach(Implements(doc), Implemented(doc, t)) IN t \notin up /\ up = Implemented(doc, t)
\* Some finite value exists for every input type.
RECURSIVE Finite(_, _)
Finite(D, S) == LET more == { t \in Names : Kind(D, t) = "input" /\ \A q \in Needs(D) : q[1] = t => q[2] \in S } IN IF more = S THEN S ELSE Finite(D, more)
Inhabited == Finite(doc, {}) = { t \in Names : Kind(doc, t) = "input" }
Rooted == Cardinality(RootTypes(doc)) = Times(doc, "q") + Times(doc, "m") + Times(doc, "s")
=============================================================================
