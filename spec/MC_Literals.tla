--------------------------- MODULE MC_Literals ---------------------------
(* Constant values of a schema document: every value of the grammar up to  *)
(* Depth, written where a default value or a directive argument stands.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Width
VARIABLES val, d

Str(v, lit) == [k |-> "string", v |-> v, lit |-> lit]
Leaves == { [k |-> "null"], [k |-> "int", v |-> "0"], [k |-> "int", v |-> "-7"], [k |-> "int", v |-> "9007199254740993"],
            [k |-> "float", v |-> "1.5"], [k |-> "float", v |-> "-0.25"], [k |-> "float", v |-> "1e10"], [k |-> "bool", v |-> "true"], [k |-> "bool", v |-> "false"],
            [k |-> "enum", v |-> "A"], Str("A", "\"A\""), Str("", "\"\""), Str("q\"b\\n\n", "\"q\\\"b\\\\n\\n\"") }
\* the literal of a value
RECURSIVE Text(_), Texts(_), Fields(_, _)
Text(x) == CASE x.k = "null" -> "null" [] x.k \in {"int", "float", "bool", "enum"} -> x.v [] x.k = "string" -> x.lit
             [] x.k = "list" -> "[" \o Texts(x.v) \o "]" [] x.k = "obj" -> "{" \o Fields(x.n, x.v) \o "}"
Texts(xs) == IF xs = <<>> THEN "" ELSE Text(xs[1]) \o (IF Len(xs) > 1 THEN ", " \o Texts(Tail(xs)) ELSE "")
Fields(ns, xs) == IF xs = <<>> THEN "" ELSE ns[1] \o ": " \o Text(xs[1]) \o (IF Len(xs) > 1 THEN ", " \o Fields(Tail(ns), Tail(xs)) ELSE "")

Init == val \in Leaves /\ d = 0
\* wrap the value, alone or beside another one
Nest == /\ d < Depth
        /\ d' = d + 1
        /\ \/ val' = [k |-> "list", v |-> <<val>>]
           \/ val' = [k |-> "obj", n |-> <<"x">>, v |-> <<val>>]
           \/ \E o \in Leaves : Width > 1 /\ (val' = [k |-> "list", v |-> <<val, o>>] \/ val' = [k |-> "obj", n |-> <<"x", "y">>, v |-> <<val, o>>]
                              \/ val' = [k |-> "list", v |-> <<o, val>>])
Empty == d = 0 /\ d' = 1 /\ (val' = [k |-> "list", v |-> <<>>] \/ val' = [k |-> "obj", n |-> <<>>, v |-> <<>>])
Next == (Nest \/ Empty) /\ PrintT("CASE " \o ToJson([v |-> val', t |-> Text(val')]))

\* nesting is visible in the literal
Nested == (val.k = "list" <=> SubSeq(Text(val), 1, 1) = "[") /\ (val.k = "obj" <=> SubSeq(Text(val), 1, 1) = "{")
=============================================================================
