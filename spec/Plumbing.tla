----------------------------- MODULE Plumbing -----------------------------
(* What a subgraph repeats of the federation protocol in its schema: the   *)
(* _service and _entities fields of its query root, their types, and       *)
(* definitions of what every server knows. None of it is part of the graph:*)
(* Trace(s), what the composed graph keeps of a subgraph, is what it keeps *)
(* of the subgraph without them.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Styles, Others
\* on the query root, or next to it
Items == {"service-field", "entities-field", "service-type", "entity-union", "federation-directives", "link-directive", "builtin-directives", "builtin-scalars", "schema"}
VARIABLES style, other, has, place, fields, done
vars == <<style, other, has, place, fields, done>>

\* the elements that a subgraph's schema has, as names of types and of fields of types
Own(st) == LET q == IF st = "renamed" THEN "RootQuery" ELSE "Query" IN {<<"type", q>>, <<"type", "User">>, <<"field", q, "user">>, <<"field", "User", "id">>, <<"field", "User", "name">>}
Query(st) == IF st = "renamed" THEN "RootQuery" ELSE "Query"
Adds(st, i) ==
  CASE i = "service-field" -> {<<"field", Query(st), "_service">>}
    [] i = "entities-field" -> {<<"field", Query(st), "_entities">>}
    [] i = "service-type" -> {<<"type", "_Service">>, <<"field", "_Service", "sdl">>}
    [] i = "entity-union" -> {<<"type", "_Entity">>}
    [] i = "federation-directives" -> {<<"directive", "key">>, <<"directive", "external">>, <<"directive", "shareable">>, <<"directive", "tag">>}
    [] i = "link-directive" -> {<<"directive", "link">>}
    [] i = "builtin-directives" -> {<<"directive", "skip">>, <<"directive", "include">>, <<"directive", "deprecated">>, <<"directive", "specifiedBy">>}
    [] i = "builtin-scalars" -> {<<"type", "String">>, <<"type", "ID">>, <<"type", "Int">>, <<"type", "Boolean">>, <<"type", "Float">>}
    [] i = "schema" -> {}
Schema(st, S) == Own(st) \cup UNION { Adds(st, i) : i \in S }
Known == {"key", "external", "shareable", "tag", "link", "skip", "include", "deprecated", "specifiedBy"}
Plumb(e) ==
  \/ e[1] = "type" /\ e[2] \in {"_Service", "_Entity", "String", "ID", "Int", "Boolean", "Float"}
  \/ e[1] = "directive" /\ e[2] \in Known
  \/ e[1] = "field" /\ (e[2] = "_Service" \/ (e[2] \in {"Query", "RootQuery"} /\ e[3] \in {"_service", "_entities"}))
\* the root of the composed graph has the usual name
Canon(e) == IF e[1] = "type" /\ e[2] = "RootQuery" THEN <<"type", "Query">> ELSE IF e[1] = "field" /\ e[2] = "RootQuery" THEN <<"field", "Query", e[3]>> ELSE e
Trace(st, S) == { Canon(e) : e \in { x \in Schema(st, S) : ~Plumb(x) } }

\* a subgraph may have fields of these names elsewhere: those are its own
Extra == {"none", "entities-elsewhere", "service-elsewhere", "mutation"}
Init == /\ style \in Styles /\ other \in Others /\ has = {} /\ place \in {"definition", "extension"} /\ fields \in Extra /\ done = FALSE
Add == ~done /\ \E i \in Items \ has : has' = has \cup {i} /\ UNCHANGED <<style, other, place, fields, done>>
Stop == /\ ~done /\ done' = TRUE /\ UNCHANGED <<style, other, has, place, fields>>
        /\ ("renamed" = style => "schema" \in has)    \* what gives the root its name
        /\ PrintT("CASE " \o ToJson([style |-> style, other |-> other, has |-> has, place |-> place, fields |-> fields]))
Next == Add \/ Stop
NoTrace == Trace(style, has) = Trace(style, {}) /\ Trace("renamed", has) = Trace("plain", has)
===========================================================================
