----------------------------- MODULE Arguments -----------------------------
(* The arguments of a field named in a selection (@requires, @provides or  *)
(* @key). A behaviour builds the value given to the argument: a leaf, then  *)
(* lists and input objects around it. In every state the outcome says      *)
(* whether the selection is valid: the argument exists on the field, its   *)
(* value is one the argument's type takes, required arguments are there,   *)
(* and every other subgraph with the field has the argument.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Full
VARIABLES ty, val, d, site

Wraps == IF Full THEN {<<>>, <<"N">>, <<"L">>, <<"N", "L">>, <<"L", "N">>, <<"N", "L", "N">>, <<"L", "L">>, <<"N", "L", "L", "N">>} ELSE {<<>>, <<"N">>, <<"L">>, <<"N", "L", "N">>, <<"L", "L">>}
Bases == {"Int", "Float", "String", "ID", "Boolean", "E", "In", "Any"}
\* whether the argument has a default value (its text does not matter here)
Types == { [b |-> b, w |-> w, def |-> x] : b \in Bases, w \in Wraps, x \in BOOLEAN }

\* the schema: enum E { RED GREEN }, input In { a: Int  b: Int!  c: In  d: Int! = 4  e: [E!] }, scalar Any
Colours == {"RED", "GREEN"}
InFields == [a |-> [b |-> "Int", w |-> <<>>, def |-> FALSE], b |-> [b |-> "Int", w |-> <<"N">>, def |-> FALSE], c |-> [b |-> "In", w |-> <<>>, def |-> FALSE],
             d |-> [b |-> "Int", w |-> <<"N">>, def |-> TRUE], e |-> [b |-> "E", w |-> <<"N", "L">>, def |-> FALSE]]

Leaf(k, v) == [k |-> k, v |-> v, n |-> <<>>, xs |-> <<>>]
List(xs) == [k |-> "list", v |-> "", n |-> <<>>, xs |-> xs]
Object(n, xs) == [k |-> "obj", v |-> "", n |-> n, xs |-> xs]
Leaves == { Leaf("int", "1"), Leaf("int", "-7"), Leaf("float", "1.5"), Leaf("string", "\"s\""), Leaf("string", "\"RED\""), Leaf("bool", "true"), Leaf("null", "null"), Leaf("enum", "RED"), Leaf("enum", "BLUE") }
NoValue == Leaf("none", "")

Outer(t) == IF t.w = <<>> THEN "" ELSE t.w[Len(t.w)]
Inner(t) == [t EXCEPT !.w = SubSeq(@, 1, Len(@) - 1), !.def = FALSE]
Required(t) == Outer(t) = "N" /\ ~t.def

\* "yes", "no", or "open" where GraphQL's versions differ: a single value for an item that is a list itself
Worst(S) == IF "no" \in S THEN "no" ELSE IF "open" \in S THEN "open" ELSE "yes"
RECURSIVE Takes(_, _)
Takes(t, v) ==
  IF Outer(t) = "N" THEN (IF v.k = "null" THEN "no" ELSE Takes(Inner(t), v))
  ELSE IF v.k = "null" THEN "yes"
  ELSE IF Outer(t) = "L" THEN
    (IF v.k = "list"
     THEN Worst({ IF v.xs[i].k # "list" /\ v.xs[i].k # "null" /\ \E j \in 1..(Len(t.w) - 1) : t.w[j] = "L"
                  THEN (IF Takes(Inner(t), v.xs[i]) = "no" THEN "no" ELSE "open") ELSE Takes(Inner(t), v.xs[i]) : i \in DOMAIN v.xs })
     ELSE Takes(Inner(t), v))
  ELSE CASE t.b = "Int" -> IF v.k = "int" THEN "yes" ELSE "no"
         [] t.b = "Float" -> IF v.k \in {"int", "float"} THEN "yes" ELSE "no"
         [] t.b = "String" -> IF v.k = "string" THEN "yes" ELSE "no"
         [] t.b = "ID" -> IF v.k \in {"string", "int"} THEN "yes" ELSE "no"
         [] t.b = "Boolean" -> IF v.k = "bool" THEN "yes" ELSE "no"
         [] t.b = "E" -> IF v.k = "enum" /\ v.v \in Colours THEN "yes" ELSE "no"
         [] t.b = "Any" -> "yes"
         [] t.b = "In" -> IF v.k # "obj" THEN "no"
                          ELSE Worst({ IF v.n[i] \in DOMAIN InFields THEN Takes(InFields[v.n[i]], v.xs[i]) ELSE "no" : i \in DOMAIN v.n }
                                     \cup { "no" : f \in { f \in DOMAIN InFields : Required(InFields[f]) /\ \A i \in DOMAIN v.n : v.n[i] # f } })

\* site: the directive, the argument named ("n" is the field's, "m" is not), and what another subgraph makes of the field:
\* it lacks it, has the same, or has it without arguments
Sites == [dir : {"requires", "provides", "key"}, arg : {"n", "m"}, other : {"absent", "same", "noarg"}]
Outcome ==
  LET given == val.k # "none" IN
  IF site.other = "noarg" /\ Outer(ty) = "N" THEN "no"          \* a required argument cannot be dropped
  ELSE IF ~given THEN (IF Required(ty) THEN "no" ELSE "yes")
  ELSE IF site.arg = "m" THEN "no"
  ELSE IF site.other = "noarg" THEN "no"                        \* the composed field does not have the argument
  ELSE Takes(ty, val)

Init == ty \in Types /\ val \in Leaves \cup {NoValue} /\ d = 0 /\ site \in Sites /\ (site.arg = "m" => val \in {NoValue, Leaf("int", "1")})
Wrap == /\ d < Depth /\ val.k # "none" /\ site.arg = "n"
        /\ d' = d + 1 /\ UNCHANGED <<ty, site>>
        /\ val' \in { List(<<val>>), List(<<Leaf("int", "1"), val>>), List(<<val, Leaf("null", "null")>>), Object(<<"a">>, <<val>>), Object(<<"b">>, <<val>>), Object(<<"b", "c">>, <<Leaf("int", "2"), val>>),
                      Object(<<"b", "d">>, <<Leaf("int", "2"), val>>), Object(<<"e", "b">>, <<val, Leaf("int", "2")>>), Object(<<"z", "b">>, <<val, Leaf("int", "2")>>) }
Empty == /\ d = 0 /\ val = Leaf("null", "null") /\ d' = Depth /\ UNCHANGED <<ty, site>> /\ val' \in {List(<<>>), Object(<<>>, <<>>)}
Next == Wrap \/ Empty

RECURSIVE Text(_), Texts(_), Pairs(_, _)
Text(x) == CASE x.k = "list" -> "[" \o Texts(x.xs) \o "]" [] x.k = "obj" -> "{" \o Pairs(x.n, x.xs) \o "}" [] OTHER -> x.v
Texts(xs) == IF xs = <<>> THEN "" ELSE Text(xs[1]) \o (IF Len(xs) > 1 THEN ", " \o Texts(Tail(xs)) ELSE "")
Pairs(ns, xs) == IF xs = <<>> THEN "" ELSE ns[1] \o ": " \o Text(xs[1]) \o (IF Len(xs) > 1 THEN ", " \o Pairs(Tail(ns), Tail(xs)) ELSE "")

Out == PrintT("CASE " \o ToJson([ty |-> ty, v |-> IF val.k = "none" THEN <<>> ELSE <<Text(val)>>, site |-> site, out |-> Outcome]))
Emit == Outcome = "open" \/ Out

\* nullable types take null, required ones do not; what a required type takes, the nullable one takes too; lists take single values
Nullability == (Takes(ty, Leaf("null", "null")) = "yes") = (Outer(ty) # "N")
Widening == Outer(ty) = "N" /\ Takes(ty, val) = "yes" => Takes(Inner(ty), val) = "yes"
SingleItem == val.k \notin {"list", "null", "none"} => Takes(ty, val) = Takes([ty EXCEPT !.w = Append(@, "L")], val)
DefaultsMakeOptional == ty.def /\ val.k = "none" /\ site.other # "noarg" => Outcome = "yes"
=============================================================================
