#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed="crates/grafbase-sdk/src/verification.rs: the types shared with the host" if id in ("S01", "S02", "S03") else None)))
GC = "crates/graphql-composition/src/"
SNAP = "The composition snapshot tests sample about a hundred hand-written graphs; "

p("C01", "Output field types merge to the least restrictive common type",
  "When several subgraphs define the same output field, the composed field has the same named type, list depth and element nullability as all of them, and is itself non-null exactly when it is non-null in every subgraph. If the named types, the list depths or the nullability of the list elements differ, composition fails instead of picking one.",
  ["inputs"], "every set of subgraph type expressions for a shared field: all nesting depths, all nullability vectors, any number of subgraphs, objects and interfaces alike",
  SNAP + "the rule is a function over an unbounded product of wrapping vectors.",
  [GC+"compose/fields.rs", GC+"compose/object.rs", GC+"compose/interface.rs", GC+"subgraphs/field_types.rs"],
  [("type composition", GC+"compose/fields.rs")], ["graphql_composition::compose diagnostics", "rendered federated SDL field types"])
p("C02", "Arguments and input fields merge by intersection and most restrictive type",
  "An argument of a shared field, and a field of a shared input object, exists in the composed graph exactly when every subgraph defining the field (or input object) declares it, and its type is the most restrictive of the declared ones. Composition fails if one that would be dropped is declared non-null in some subgraph, if the named types, list depths or element nullabilities differ, or if the declared default values disagree.",
  ["inputs"], "every combination of presence, type and default of arguments and input fields across any number of subgraphs",
  SNAP + "the cross product of presence, nullability and defaults per subgraph is only sampled.",
  [GC+"compose/fields.rs", GC+"compose/input_object.rs", GC+"compose/object.rs"],
  [("argument merge", GC+"compose/fields.rs"), ("input object merge", GC+"compose/input_object.rs")], ["diagnostics", "rendered federated SDL arguments and input fields"])
p("C03", "Enums merge according to how they are used",
  "An enum used only as input keeps exactly the values common to all subgraphs defining it, and composition fails if none is common; an enum used only as output, or unused, keeps every value of every subgraph. An enum used both as input and as output must have exactly the same values in all subgraphs that define it, otherwise composition fails.",
  ["inputs"], "every assignment of value sets to subgraphs and every usage of the enum (argument, input field, output field, none, any wrapping) in any subgraph",
  SNAP + "usage positions times value sets times subgraphs is not covered.",
  [GC+"compose/enums.rs", GC+"subgraphs/enums.rs"], [("usage-dependent enum merge", GC+"compose/enums.rs")], ["diagnostics", "rendered federated SDL enum values and their ownership"])
p("C04", "The federated graph attributes every definition to exactly its subgraphs",
  "In the composed graph every object, interface, input object, enum and union member is attributed to exactly the subgraphs that declare it (a key-less definition of an entity in a Federation 1 subgraph excepted), and every object field can be resolved from exactly the subgraphs that define it (minus overridden and external-only ones), with the set of types, fields and union members being the union over the subgraphs. A query planner reading the federated schema never sees a subgraph offered for a field it does not define, nor misses the only one that does.",
  ["inputs"], "every distribution of types, fields, implements clauses and union members over the subgraphs",
  SNAP + "who-owns-what is a relation over all subgraphs and types.",
  [GC+"compose/object.rs", GC+"compose.rs", GC+"emit_federated_graph.rs", GC+"emit_federated_graph/directive.rs", GC+"federated_graph/render_sdl/render_federated_sdl.rs"],
  [("join__type/join__field emission", GC+"emit_federated_graph/directive.rs")], ["join__* directives of the rendered federated SDL"])
p("C05", "A field is shared between subgraphs only where sharing is allowed",
  "Composition succeeds on an object field resolved by two or more Federation 2 subgraphs only if at least one definition permits sharing it (shareable on the field or its object, or part of a key); otherwise it reports invalid field sharing and produces no graph. Definitions that override another subgraph's, that are external, or that are in a Federation 1 subgraph do not count as resolving the field. A permitted sharing is never refused.",
  ["inputs"], "every placement of shareable, key, external and override markers, on fields, types and type extensions, in Federation 1 and 2 subgraphs",
  SNAP + "each marker combination per subgraph multiplies.",
  [GC+"compose/object.rs", GC+"subgraphs/fields.rs", GC+"ingest_subgraph/directives.rs"], [("sharing validation", GC+"compose/object.rs")], ["diagnostics"])
p("C06", "Override moves a field to exactly one subgraph, unambiguously",
  "When one subgraph overrides a field from another, the composed graph resolves the field from the overriding subgraph and no longer from the overridden one (unless progressive, where both remain with the label preserved), and every other subgraph keeps it. A field overridden from the subgraph itself, overridden by several subgraphs from the same source, or overridden away from every subgraph that defines it, makes composition fail, and the outcome never depends on the order of subgraphs.",
  ["inputs"], "every assignment of override directives (target, label) to up to n subgraphs, including targets that do not exist",
  SNAP + "override chains and cycles over three or more subgraphs are sampled once or twice.",
  [GC+"compose/object.rs", GC+"compose/directives.rs", GC+"federated_graph/directives/override.rs", GC+"federated_graph/render_sdl/render_federated_sdl.rs"],
  [("override handling", GC+"compose/object.rs")], ["diagnostics", "join__field(override:) in the federated SDL"])
p("C07", "Entity keys are validated and carried over exactly",
  "Every key declared on a type by a subgraph appears in the composed graph on that type, for that subgraph, with the same fields and the same resolvability, and no other key appears. A key naming a field that the subgraph does not define on the type (at any nesting depth), or selecting sub-fields of a leaf, makes composition fail.",
  ["inputs"], "every set of keys (flat, compound, nested, non-resolvable, repeated) over every distribution over the subgraphs",
  SNAP + "nested selections by subgraph combinations are unbounded.",
  [GC+"subgraphs/keys.rs", GC+"validate/selection.rs", GC+"ingest_subgraph/nested_key_fields.rs", GC+"emit_federated_graph/directive.rs"],
  [("key ingestion", GC+"subgraphs/keys.rs"), ("selection validation", GC+"validate/selection.rs")], ["join__type(key:) of the federated SDL", "diagnostics"])
p("C08", "Requires, provides and external selections are validated and preserved",
  "Each requirement and each provided selection attached to a field in a subgraph appears in the composed graph for that subgraph with the same selection; a selection that names a field that does not exist on the relevant type, or gives a field arguments that it does not accept (unknown, of another type, or missing although required), or a provided selection with directives, makes composition fail; a selection of existing fields with accepted arguments does not. A field marked external in a subgraph is never offered as resolvable from that subgraph, other than as the key or provided selection that names it.",
  ["inputs"], "every requires/provides/key selection over every parent and return type, with every argument value for every argument type, with externals on fields, types and extensions",
  SNAP + "only simple selections are covered.",
  [GC+"validate/selection.rs", GC+"compose/object.rs", GC+"emit_federated_graph/directive.rs"],
  [("selection resolution", GC+"emit_federated_graph.rs")], ["join__field(requires:/provides:/external:)", "diagnostics"])
p("C09", "Inaccessible elements never reach the client-facing schema",
  "A type, field, enum value, argument, input field or union member marked inaccessible in any subgraph is inaccessible in the composed graph, and absent from the client-facing schema. Everything else is present in the client-facing schema, with the type the composed graph gives it, except for types left without any visible field, value or member.",
  ["inputs"], "every placement of inaccessible over every kind of schema element in every subgraph",
  SNAP + "presence is checked on a handful of elements only.",
  [GC+"federated_graph/render_sdl/render_api_sdl.rs", GC+"federated_graph/render_sdl/render_api_sdl/visibility.rs", GC+"compose/directives.rs"],
  [("visibility", GC+"federated_graph/render_sdl/render_api_sdl/visibility.rs")], ["graphql_composition::render_api_sdl"])
p("C10", "Directives with client or security meaning survive composition, merged",
  "The composed element carries exactly the union, over all subgraphs, of its tags, required scopes and policies, is marked authenticated or inaccessible if any subgraph marks it so, is deprecated (with the first declared reason) if any subgraph deprecates it, and carries the highest of the declared costs. No authorization directive is ever dropped because another subgraph lacks it.",
  ["inputs"], "every placement of every such directive over every element kind and subgraph, under every import alias",
  SNAP + "merges of two differing occurrences are sampled per directive once.",
  [GC+"compose/directives.rs", GC+"emit_federated_graph/directive.rs", GC+"subgraphs/directives.rs"],
  [("directive collection", GC+"compose/directives.rs")], ["directives in the federated SDL"])
p("C11", "A composed object always satisfies the interfaces it claims",
  "If composition succeeds, every object and interface of the composed graph defines every field of every interface it implements. A subgraph that adds a field to a shared interface which some implementer in another subgraph lacks makes composition fail.",
  ["inputs"], "every distribution of interface fields and implementers over subgraphs, interfaces implementing interfaces included",
  SNAP + "the combinations of who adds and who implements are sampled.",
  [GC+"compose/interface.rs", GC+"compose/validate.rs", GC+"compose/object.rs"], [("interface validation", GC+"compose/validate.rs")], ["diagnostics", "implements and fields of the federated SDL"])
p("C12", "Entity interfaces spread interface-object fields to all implementers",
  "When a subgraph defines an interface as an interface object, every object implementing that interface gets each of its additional fields, attributed to that subgraph as an interface object. Composition fails if no subgraph defines the interface as an entity with keys, if the interface objects, the interface and its implementers do not share their key, or if the subgraphs defining the interface disagree on its implementers.",
  ["inputs"], "every split of an entity interface over subgraphs", SNAP + "only a few shapes exist.",
  [GC+"compose/entity_interface.rs"], [("entity interface merge", GC+"compose/entity_interface.rs")], ["diagnostics", "isInterfaceObject and join__field in the federated SDL"])
p("C13", "Composition does not depend on the order of subgraphs or definitions",
  "Composing the same subgraphs in any order, and with the definitions inside each subgraph in any order, either fails every time or yields the same schema: the same types, fields, arguments, types, ownership, keys and merged directives. Only descriptions, deprecation reasons, textual order and which of several diagnostics is reported first may differ.",
  ["inputs", "histories"], "every permutation of the ingestion history and of the definitions of each subgraph",
  "The tests compose each example in a single order.",
  [GC+"compose.rs", GC+"subgraphs.rs", GC+"compose/object.rs", GC+"compose/enums.rs", GC+"compose/directives.rs"],
  [("sorted definition groups", GC+"subgraphs/definitions.rs")], ["federated SDL and diagnostics"])
p("C14", "The federated schema text round-trips through the federated graph",
  "Parsing the rendered federated schema yields a graph whose rendering is the same text again, and the client-facing schema rendered from the re-parsed graph is the same as the one rendered from the original composition. Nothing the gateway needs (ownership, keys, selections, directives, defaults, descriptions) is lost by storing a graph as text.",
  ["inputs"], "every composable graph", "Only the snapshot corpus is round-tripped, each example in isolation.",
  [GC+"federated_graph/from_sdl.rs", GC+"federated_graph/render_sdl/render_federated_sdl.rs", GC+"federated_graph/render_sdl/display_utils.rs", GC+"federated_graph/from_sdl/directive.rs"],
  [("parser", GC+"federated_graph/from_sdl.rs"), ("renderer", GC+"federated_graph/render_sdl/render_federated_sdl.rs")], ["FederatedGraph::from_sdl", "render_federated_sdl", "render_api_sdl"])
p("C15", "Composed schemas are well-formed GraphQL",
  "Whenever composition succeeds, the federated schema and the client-facing schema both parse, and every named type they reference is defined in them exactly once, every composite type has at least one field, member or value, and there is a query root with at least one field. String values and descriptions appear unaltered whatever characters they contain.",
  ["inputs"], "every set of subgraphs accepted by composition", SNAP + "the outputs are compared as text, not validated.",
  [GC+"federated_graph/render_sdl/display_utils.rs", GC+"federated_graph/render_sdl/render_api_sdl.rs", GC+"compose/validate.rs", GC+"compose/roots.rs"],
  [("renderers", GC+"federated_graph/render_sdl/")], ["rendered SDLs"])
p("C16", "Composition yields a graph exactly when it reports no error",
  "A composition result carries a graph if and only if no error diagnostic was reported; warnings never prevent a graph. Two definitions of a name with different kinds, an empty or duplicate subgraph name (ignoring case), and a graph without any query field are always errors.",
  ["inputs"], "every set of subgraphs, valid or not", SNAP + "each failing snapshot covers one error.",
  [GC+"compose.rs", GC+"lib.rs", GC+"validate/subgraph_names.rs", GC+"diagnostics.rs", GC+"result.rs"],
  [("fatal diagnostics gate", GC+"lib.rs")], ["CompositionResult", "Diagnostics"])
p("C17", "Directive names resolve through the subgraph's own links",
  "A directive use in a subgraph means the linked specification's directive exactly when its name resolves to it through that subgraph's link declarations: imported under its own name or an alias, or prefixed with the link's namespace (explicit or derived from the URL). A subgraph without a federation link gets the original federation directives by their bare names; a name that resolves to nothing, including a prefixed name whose prefix no link gives, has no federation effect. (Not covered: the same name imported twice, a namespace linked twice, the prefixed form of an imported name, and the historical federation__ prefix without a link that gives it.)",
  ["inputs"], "every link declaration (import list, alias, namespace) and every spelling of every directive",
  SNAP + "each directive is imported one way in them.",
  [GC+"ingest_subgraph/directives/match_name.rs", GC+"ingest_subgraph/schema_definitions/link.rs", GC+"subgraphs/linked_schemas.rs"],
  [("name matching", GC+"ingest_subgraph/directives/match_name.rs")], ["composed ownership and directives"])
p("C18", "Custom directives are kept exactly when requested",
  "Applications of a custom directive reach the composed graph, with their arguments, from exactly the subgraphs that request it to be composed (or that link the extension it belongs to), on every kind of element, and applications of any other custom directive do not. Definitions of a composed directive are merged to one definition, with the union of the locations and each argument once; subgraphs that disagree on an argument's type, on its default, on a required argument or on repeatability make composition fail.",
  ["inputs"], "every set of composed and non-composed directives on every element", SNAP + "one or two elements are sampled.",
  [GC+"compose/directives.rs", GC+"compose/directive_definitions.rs", GC+"ingest_subgraph/directive_definitions.rs", GC+"subgraphs/extensions.rs"],
  [("composed directive filter", GC+"compose/directives.rs")], ["federated SDL directives"])
p("C19", "Composite-schema directives keep their subgraph and their meaning",
  "Each @lookup, @derive, @internal, @require and @is of a subgraph that links the composite schemas specification is in the composed graph on the same element, for that subgraph and with the same selection map, and nothing is added for other subgraphs; keys of that specification are kept as keys that are not resolvable. A field whose argument requires a list of selections composes with the items of its list type. In the client-facing schema, arguments with @require are absent, and an object type (other than a root type) or field is absent as internal exactly when every subgraph it comes from marks it @internal, before and after the composed graph is rendered and read again. Non-null lookup fields are reported.",
  ["inputs"], "every combination of the composite directives, field types and sharing over subgraphs that link composite schemas, federation, both or neither",
  "Three hand-written graphs of the snapshot tests use these directives.",
  [GC+"ingest_subgraph/directives.rs", GC+"compose/fields.rs", GC+"emit_federated_graph/directive.rs", GC+"federated_graph/render_sdl/render_api_sdl/visibility.rs", GC+"validate/composite_schemas/post_merge.rs"],
  [("batched fields", GC+"compose/fields.rs"), ("internal visibility", GC+"federated_graph/render_sdl/render_api_sdl/visibility.rs")], ["composite__* directives in the federated SDL", "graphql_composition::render_api_sdl", "diagnostics"])
p("C20", "Linked extensions: one name each, conflicts refused, uses attached",
  "A link to the extension registry or to a file makes an extension, named by the link's alias or else by the url without its version and build directory; links to anything else do not. Composition is refused exactly when two such links give one name (case aside) to urls that differ in more than a version at the end. Otherwise the composed graph lists exactly the extensions whose directives some subgraph applies, once per url and each under a name of its own, and every application on a field or a schema definition refers, with its subgraph and arguments, to the extension that its own subgraph linked.",
  ["inputs"], "every combination of extension links, aliases, versions and uses across subgraphs", SNAP + "four of them link extensions, without versions that differ.",
  [GC+"ingest_subgraph/schema_definitions/link.rs", GC+"validate/extension_names.rs", GC+"emit_federated_graph/emit_extensions.rs", GC+"compose/context.rs"],
  [("extension registration", GC+"subgraphs/extensions.rs")], ["extension__Link enum", "extension__directive applications"])

p("C21", "What a subgraph repeats of the federation protocol leaves no trace",
  "A subgraph's schema may repeat what the federation protocol and GraphQL give every subgraph: the fields _service and _entities of its query root (whatever the root is called, in its definition or in an extension of it), the type _Service, the union _Entity, definitions of the federation directives, of @link and of the built-in directives, the built-in scalars, and a schema definition that names its roots. The composed graph and the client-facing schema, directive definitions included, are the same with any of these as with none of them. Fields of those names on other types are the subgraph's own and stay.",
  ["inputs"], "every combination of repeated protocol elements, in every style of subgraph", SNAP + "a few of them repeat some of these elements, none compares with a schema that does not.",
  [GC+"ingest_subgraph.rs", GC+"ingest_subgraph/fields.rs"],
  [("protocol fields and types skipped at ingestion", GC+"ingest_subgraph/fields.rs")], ["federated SDL", "client-facing SDL"])

p("C22", "Root operation types compose under their default names, whatever they are called",
  "The query, mutation and subscription types of the composed graph consist of the fields of the root types of every subgraph, each resolved in its subgraph, whether a subgraph calls its roots by the default names or names them in a schema definition, in extensions of it, or in both, and in whatever order. Everything that refers to a root (fields of any type, of interfaces and entities, unions, implementations of interfaces, extensions) refers to the composed root. Another subgraph's ordinary type that happens to have a root's name stays a type of its own. A type with a root's default name that is not that root, or not an object, and a graph without any root, are refused. The composed graph is never broken, and the client-facing schema and the graph read back from SDL agree with it.",
  ["inputs"], "every way of declaring and naming the roots of one subgraph, every reference to them, and combinations of up to three such subgraphs", SNAP + "three of them rename the query root, none refers to it.",
  [GC+"ingest_subgraph/schema_definitions.rs", GC+"ingest_subgraph.rs", GC+"compose/roots.rs"],
  [("which type is a root", GC+"ingest_subgraph/schema_definitions.rs"), ("merging the roots", GC+"compose/roots.rs")], ["federated SDL", "client-facing SDL", "diagnostics"])

D = "crates/graphql-schema-diff/src/"
p("D01", "A schema diff reports exactly the differences",
  "The diff of two schemas is empty exactly when they declare the same things, and otherwise contains, once each, the additions, removals and modifications of every type, field, argument, argument default, enum value, union member, implemented interface, input field, root type and directive definition that differ. Swapping the schemas swaps additions with removals and leaves modifications in place. (Outside the diff by design: descriptions, applied directives, defaults of input fields, the contents of directive definitions.)",
  ["inputs"], "every pair of schemas", "23 example pairs are compared with recorded outputs.",
  [D+"lib.rs", D+"state.rs", D+"traverse_schemas.rs"], [("two-sided maps", D+"state.rs")], ["graphql_schema_diff::diff"],
  [("types_map/fields_map/…", "for each path, the source and the target definition", D+"state.rs")])
p("D02", "Patching the source with the diff gives the target",
  "Applying the diff from one schema to another on the first one's text yields a schema that is equivalent to the second one: diffing them again finds nothing, what the diff does not report is left as it was in the source, and what was added is as it is in the target.",
  ["inputs"], "every pair of schemas", "28 example pairs are patched.",
  [D+"patch.rs", D+"patch/type_definitions.rs", D+"patch/schema_definitions.rs", D+"patch/directives.rs", D+"patch/paths.rs"],
  [("patcher", D+"patch.rs")], ["graphql_schema_diff::patch"])
p("D03", "Each change points at the definition it is about",
  "The text span attached to each change, read in the schema the change refers to (the source for removals, the target otherwise), is the text of precisely the changed definition (up to trailing white space, commas and comments); and the path of a change, together with its kind, identifies that definition uniquely and parses back to itself, and no other text parses to a path.",
  ["inputs"], "every pair of schemas and every path", "Spans are recorded for the examples only.",
  [D+"path.rs", D+"path/parse.rs", D+"path/display.rs", D+"state.rs", D+"lib.rs"], [("spans", D+"state.rs")], ["Change::span", "Path Display/FromStr"])
K = "crates/operation-checks/src/"
p("K01", "No schema change that breaks a used operation passes the check",
  "If an operation that was valid on the old schema and counted as used becomes invalid on the new schema because something it uses was removed, retyped incompatibly or newly required, the check reports at least one error for it. This covers fields, arguments, argument and field types (including a used type that becomes another kind of type), enum values, added required input fields, union members, implemented interfaces and types in fragment conditions. Outside this guarantee: operations after the first of a document, an input field whose own type changes or that disappears (a warning only), and fragments on an abstract type inside selections of another abstract type.",
  ["inputs", "histories"], "every pair of schemas and every history of operations", "11 examples.",
  [K+"check.rs", K+"check/rules.rs", K+"aggregate_field_usage.rs"], [("rules", K+"check/rules.rs")], ["operation_checks::check"])
p("K02", "Safe changes and unused elements raise no error",
  "The check reports no error for a change that cannot break any recorded operation: additions of optional things, relaxations of input types, tightenings of output types, and any removal of something no counted operation uses. By design the check is conservative in two points: an argument of a used field that becomes required without a default is an error even if every operation provides it, and a used type that changes its kind is an error.",
  ["inputs", "histories"], "every pair of schemas and every history of operations", "11 examples.",
  [K+"check/rules.rs", K+"schema/wrapping_types.rs"], [("rules", K+"check/rules.rs")], ["operation_checks::check"])
p("K03", "Field usage counts exactly the recorded operations",
  "After any history of operations with their request counts, the usage of each field, argument, enum value and type condition equals the sum of the request counts of the operations that use it (once per use in the document), and everything below the threshold is treated as unused.",
  ["inputs", "histories"], "every sequence of recorded operations and thresholds", "4 examples.",
  [K+"aggregate_field_usage.rs", K+"operation.rs", K+"schema.rs"], [("aggregation", K+"aggregate_field_usage.rs")], ["FieldUsage via check"],
  [("FieldUsage", "request count per used element", K+"aggregate_field_usage.rs")])
V = "crates/graphql-schema-validation/src/"
p("V01", "Schemas that break the GraphQL type system rules are rejected",
  "A schema that violates one of the specification's type-system rules (duplicate or reserved names, unknown or wrongly placed types, empty types, unimplemented interface fields or arguments, incompatible covariance, missing transitive interfaces, non-null input cycles, invalid root types, bad extensions, misplaced directives) is reported with at least one error, wherever the offending definition stands. Unless extending unknown types is forbidden, a type that only has extensions counts as a type whose remaining contents are unknown. Undefined directives, repetition of directives, recursive directive definitions, default values and a missing query root are outside this guarantee.",
  ["inputs"], "every schema document", "Each rule has one or two example files.",
  [V+"validate.rs", V+"validate/type_definition.rs", V+"validate/interface_implementers.rs", V+"validate/input_object_cycles.rs", V+"validate/schema_definition.rs"], [("rules", V+"validate/")], ["graphql_schema_validation::validate"])
p("V02", "Schemas that follow the GraphQL type system rules are accepted",
  "A schema that satisfies all of the specification's type-system rules is accepted without any diagnostic, whatever combination of legal features and whatever order of definitions and extensions it uses, and validation never crashes.",
  ["inputs"], "every schema document", "Few valid examples exist.",
  [V+"validate.rs", V+"context.rs", V+"validate/interface_implementers.rs"], [("rules", V+"validate/")], ["graphql_schema_validation::validate"])
F = "crates/engine/field-selection-map/src/"
p("F01", "Field selection maps are accepted exactly when grammatical",
  "A field-selection-map text is accepted exactly when it belongs to the composite-schemas grammar (alternatives, paths with type conditions, object and list selections, arbitrary white space between tokens, at least some between the fields of an object), and the parsed value has the structure the grammar gives it.",
  ["inputs"], "every text", "32 examples.", [F+"parser.rs", F+"model.rs"], [("parser", F+"parser.rs")], ["SelectedValue::try_from"])
p("F02", "Printing a field selection map and parsing it back is the identity",
  "The text form of any parsed field selection map parses back to an equal value.",
  ["inputs"], "every selection map", "No test prints every shape.", [F+"model.rs", F+"parser.rs"], [("Display", F+"model.rs")], ["Display, TryFrom"])
W = "crates/graphql-wrapping-types/src/"
p("W01", "Wrapping types behave as sequences of list and non-null wrappers",
  "After any sequence of wrapping and unwrapping operations on a type, what it reports (list depth, nullability at each level, printed form, order of wrappers, comparison of leniency) is exactly what the sequence of wrappers applied so far implies.",
  ["histories"], "every sequence of operations up to the supported depth", "Five examples exercise a packed bit representation.",
  [W+"lib.rs", W+"mutable.rs", "crates/operation-checks/src/schema/wrapping_types.rs"], [("packed representation", W+"lib.rs")], ["Wrapping, MutableWrapping public methods"],
  [("inner", "bit-packed stack of wrappers", W+"lib.rs")])
G = "crates/gateway-config/src/"
p("G01", "Configuration strings interpolate environment variables exactly",
  "In every string value of a configuration file (never in a key), each expression `{{ env.NAME }}` (white space inside the braces optional) is replaced by the value of that environment variable; all other text, including braces that form no expression over letters, digits, underscores and dots, is kept verbatim, and inserted values are not expanded again. An expression that names a variable that is unset or not text, or anything but `env.NAME`, makes loading fail with an error that says where it stands; nothing is partially expanded.",
  ["inputs", "configurations"], "every string and every environment", "13 examples.",
  ["crates/serde-dynamic-string/src/lib.rs"], [("template parsing", "crates/serde-dynamic-string/src/lib.rs")], ["DynamicString deserialization"])
p("G02", "Relative paths in a configuration resolve against the configuration file",
  "A configuration file named by a relative path is read from the loader's current directory (the process's own unless one is given), and without a name grafbase.toml is looked for there. Every relative `subgraphs.*.schema_path`, `extensions.*.path` and `wasm.cache_path` in it resolves against the directory of that file, absolute ones are kept, and the configuration knows its file's absolute path.",
  ["configurations"], "every combination of path settings", "Few tests load from a file.",
  [G+"lib.rs", G+"extensions.rs"], [("path adjustment", G+"lib.rs")], ["Config::loader"])
p("G03", "Signal-specific telemetry settings win over global ones",
  "For each telemetry signal (traces, metrics, logs): an OTLP exporter setting (enabled, endpoint, protocol, timeout, batch_export, grpc, http) is taken from the signal's own section when it is there, otherwise from the global section, otherwise it is the documented default; a stdout section of the signal replaces the global one as a whole; the signal is exported to a target exactly when the effective setting enables it, independently of the other signals; the Grafbase target is on unless disabled.",
  ["configurations"], "every combination of global and signal-specific exporter sections", "A few combinations are sampled.",
  [G+"telemetry/mod.rs", G+"telemetry/exporters/otlp.rs", G+"telemetry/exporters.rs"], [("layering", G+"telemetry/exporters/otlp.rs")], ["TelemetryConfig accessors"])
p("G04", "Valid gateway configurations read back as written, others are refused",
  "A configuration file is loaded exactly when all its keys are known keys of their section, every value is of its key's kind and range (durations, sizes, addresses, URLs, header rules, rotation modes, keys, versions, enumerations, numbers of their width; rate-limit durations of at least a second), and no required key is missing. Then each key reads back as the value written, every key not written reads as its documented default, and settings of one section do not affect another.",
  ["configurations", "inputs"], "every configuration value", "Each setting has one or two examples.",
  [G+"lib.rs", G+"rate_limit.rs", G+"size_ext.rs", G+"message_signatures.rs", G+"header.rs", G+"cors.rs"], [("deserializers", G+"lib.rs")], ["Config deserialization"])
L = "crates/rolling-logger/src/"
p("L01", "The access log never loses, reorders or tears an accepted line",
  "After any sequence of writes, rotations, restarts, failing or partial system calls and process deaths (also several rotations within one millisecond), the archived files in the order of their names followed by the current file hold exactly the lines accepted for writing, in order, each exactly once and in one file; a write that is refused leaves what is there as it was, and once the fault is over the next write succeeds.",
  ["histories", "crash points", "faults"], "every sequence of writes, elapsed times, restarts and faults in system calls", "Five tests with one or two rotations each.",
  [L+"lib.rs", L+"log_file.rs", L+"strategy.rs"], [("rotation", L+"lib.rs")], ["files in the log directory"])
p("L02", "The access log rotates exactly at its threshold",
  "With a size limit, the file is archived before a line exactly when the file already holds at least that many bytes (also those it held when the process started, and only those really written); with a period (minute, hour, day, week, 30 days, 365 days), exactly when that time has passed since the logger opened or last archived it; with no strategy, never.",
  ["histories", "faults"], "every sequence of line lengths and elapsed times", "Five tests.",
  [L+"lib.rs", L+"strategy.rs"], [("strategy", L+"strategy.rs")], ["files in the log directory"])
E_ = "crates/event-queue/src/"
p("E01", "Collected events reach the hook once, in order, filtered",
  "Events pushed to a request's queue are handed out in push order, each exactly once, whatever the interleaving of producers and consumers; an event is kept exactly when the configured filter selects its kind, and carries exactly the data it was built with, its durations measured from when it began.",
  ["schedules", "histories"], "every interleaving of pushes and pops by several threads, every filter", "No test runs concurrently.",
  [E_+"lib.rs", E_+"filter.rs", E_+"events.rs", E_+"events/builder.rs"], [("lock-free queue", E_+"lib.rs")], ["EventQueue::push_*, pop"])
p("X01", "Extension identifiers print and parse back unchanged",
  "The text form of an extension identifier parses back to the same name and version for every non-empty name of letters, digits, dashes and underscores and every semantic version (with or without pre-release and build parts), and any text without such a reading is refused without crashing.",
  ["inputs"], "every name, version and text", "No pre-release or malformed example exists.",
  ["crates/extension/src/id.rs"], [("FromStr/Display", "crates/extension/src/id.rs")], ["Id"])
p("X02", "Extension lookup finds exactly the compatible extension",
  "Looking up an extension finds the first registered extension explicitly associated with the link's url if there is one, otherwise the first one with that name and a version that matches the requirement, and nothing if there is none; lookups by name and by configuration key find the first match, and identifiers stay valid whatever is registered later.",
  ["histories"], "every sequence of registrations and lookups", "No test covers lookups over several versions.",
  ["crates/extension-catalog/src/catalog.rs", "crates/extension/src/id.rs"], [("catalog", "crates/extension-catalog/src/catalog.rs")], ["ExtensionCatalog"])
p("X03", "Stored extension manifests and lockfiles read back unchanged, in any spelling",
  "A manifest or lockfile written by this version reads back as the same, in the current spelling, under the current version tag; documents in the spellings of earlier versions (kind for type, Authenticator, authorization_directives, the event filter beside the type, missing optional keys, unknown keys) read as the same manifest as their current form. A document without a required key, with a value of another kind, an unknown type, permission or event, or another version tag is refused; permissions and type are reported exactly as written.",
  ["inputs"], "every manifest and lockfile, in every spelling", "Fifteen examples, none of them written back.",
  ["crates/extension/src/manifest/v1.rs", "crates/extension/src/manifest/mod.rs", "crates/extension/src/manifest/v1/event_filter.rs", "crates/extension/src/lockfile.rs"],
  [("VersionedManifest", "crates/extension/src/manifest/mod.rs")], ["serde of VersionedManifest and VersionedLockfile"])
p("R01", "Graph references print and parse back unchanged",
  "A text is accepted as a graph reference exactly when it has one of the forms graph, graph@branch and graph@branch#version with non-empty parts and no account name, the parts are read exactly, and printing a parsed reference gives back a text that parses to the same reference.",
  ["inputs"], "every text", "Two examples.", ["crates/graph-ref/src/lib.rs"], [("parser", "crates/graph-ref/src/lib.rs")], ["GraphRef"])
p("N01", "The schema linter flags exactly the names that break its conventions",
  "The linter reports a diagnostic for a name exactly when the name breaks the convention for its kind of element, and for each use of @deprecated without a reason on a type, field, input field or enum value, and none for a schema that follows all conventions, in definitions and extensions alike. Conventions: objects and enums PascalCase, fields, arguments and directives camelCase, enum values SHOUTY_CASE; names starting with an underscore or a scope (`scope__`) are exempt; kind names are forbidden at the ends of type names, and verbs and root names at the ends of root field names.",
  ["inputs"], "every schema document", "Two examples.", ["crates/graphql-lint/src/lib.rs"], [("rules", "crates/graphql-lint/src/lib.rs")], ["graphql_lint::lint"])
ID_ = "crates/engine/id-newtypes/src/"
p("I01", "Collections over identifiers behave as sets, ranges and relations",
  "After any sequence of operations, a bit set holds exactly the identifiers put into it (with complement, union, intersection and symmetric difference over its length), a range and its iterator, from either end, yield exactly the identifiers from its start up to before its end, a slice becomes a range exactly when its identifiers are consecutive, a relation finds exactly the values related to an identifier, and identifiers convert to their number and back, refusing numbers that do not fit. Sequences of walked identifiers compare by length, then element by element.",
  ["histories"], "every sequence of operations", "One test sets one bit.",
  [ID_+"bitset.rs", ID_+"range.rs", ID_+"many.rs", ID_+"one.rs", "crates/engine/walker/src/iter.rs", "crates/engine/id-derives/src/id.rs"], [("collections", ID_+"lib.rs")], ["BitSet, IdRange, IdToMany, IdToOne, WalkIterator"])
SDK = "crates/grafbase-sdk/src/"
p("S01", "Authorization decisions deny exactly the elements the extension named",
  "What the host receives from an authorization extension built with the SDK denies exactly the query elements, or response items, the extension denied, each with the error it was denied with (message and extensions), and grants all others, whether the extension walked all elements or those of one directive at a time, and whether it gave each denial an error of its own or reused one it had pushed. The extension sees every element once, with the identifier, site, arguments, subgraph and items it has in the request, both in the whole list and in the group of its directive.",
  ["inputs", "histories"], "every grouping of elements and items and every sequence of decisions about them",
  "No test builds a decision: the SDK's unit tests cover log levels and HTTP types only.",
  [SDK+"types/authorization.rs", SDK+"types/elements/query.rs", SDK+"types/elements/response.rs", SDK+"types/directive_site.rs"], [("decision builder", SDK+"types/authorization.rs")], ["AuthorizationDecisions as sent to the host", "QueryElements, ResponseElements"])
p("S02", "Contracts carry the accessibility the extension decided",
  "After any sequence of decisions of a contracts extension, the contract the host receives holds for each directive the last accessibility decided for it, in the documented encoding: a decision of the lowest priority outweighs the contract's default, an overriding decision is outweighed by no other, an explicit priority is passed as given, and a directive nothing was decided about has the default. The contract also holds the default, whether unreachable types are hidden (yes unless the extension says otherwise), and exactly the subgraphs the extension changed, as changed.",
  ["histories"], "every sequence of decisions about any number of directives",
  "No test builds a contract.", [SDK+"types/contract.rs"], [("accessibility encoding", SDK+"types/contract.rs")], ["Contract as sent to the host"])
p("S03", "Extensions see schemas and fields exactly as the gateway hands them over",
  "Every type, field, argument, enum value, directive and root type of the subgraph schema handed to an extension is found in it once, by walking and by its identifier, whatever the identifiers are, with its own name, directives and their arguments, its interfaces, members, values and fields in their order, its parent, and its type with the wrappers in their order; a type is non-null if its outermost wrapper is, and a list if any wrapper is. A field to resolve has exactly the alias, definition, arguments and nested selection it was handed, before its state is stored and after it is read back; a field without arguments has an empty object of them.",
  ["inputs"], "every schema and every selection, with any identifiers",
  "No test reads a schema or a selection through the SDK without a running gateway.",
  [SDK+"types/schema.rs", SDK+"types/selection_set.rs", SDK+"types/resolver.rs", SDK+"cbor.rs"], [("indexed schema", SDK+"types/schema.rs"), ("selections", SDK+"types/selection_set.rs")], ["SubgraphSchema", "ResolvedField, Field, SelectionSet, Variables"])
p("S04", "A jq selection depends on its filter and data alone, not on earlier ones",
  "Selecting with a jq filter gives the results of that filter over the given data, in order, whichever filters the same JqSelection has compiled, cached or refused before, how often this one was used, and how it is spelled; a filter that does not compile is refused every time it is given, and leaves the others working. A filter is compiled once: selecting with it again keeps no memory.",
  ["histories"], "every history of selections with one JqSelection",
  "Only compiled filters are cached, so mistakes show in histories; no test uses a selection.",
  [SDK+"jq_selection.rs"], [("filter cache", SDK+"jq_selection.rs")], ["JqSelection::select"])
p("P01", "Introspection gives a running subgraph's own schema, if it tells it either way",
  "Introspecting a url asks the server for the SDL of its federation service first, and if it answers with success and gives one, that is the schema, whatever else is in the answer; in every other case (an error status, GraphQL errors without data, missing or mistyped parts, something that is not JSON, a closed connection) it is asked for the standard introspection, once, and the schema it describes is the result. It fails only if both do, and then tells every error message of the standard introspection, or that there was no data. Every given header, with all its values in order, goes with both requests. The SDL is equivalent to the one given; one that cannot be parsed is given back verbatim.",
  ["inputs", "faults"], "every server, answer and set of headers", "No test introspects anything.",
  ["crates/grafbase-graphql-introspection/src/lib.rs", "crates/grafbase-graphql-introspection/src/subgraph.rs", "crates/grafbase-graphql-introspection/src/standard.rs"],
  [("introspection", "crates/grafbase-graphql-introspection/src/lib.rs")], ["grafbase_graphql_introspection::introspect"])
TE = "crates/telemetry/src/otel/"
p("T01", "Events become log records of their level, place, data, limits and trace",
  "Each event becomes exactly one OpenTelemetry log record with the severity of its level, its target and place in the code, its message as the body, and its first 50 fields as attributes in order with their values: booleans, floats, bytes and texts as such, integers as integers if they fit 64 signed bits and as their digits otherwise. A text longer than 1024 bytes, or a message longer than 8192, is cut at the last character that fits and marked as truncated, whatever its characters; bytes are cut at 1024; the number of fields left out is told. An event inside a span is recorded in that span and its trace, which is the trace of the outermost span or of its remote parent; an event outside of spans is in no trace.",
  ["inputs", "histories"], "every event with any fields, in every nesting of spans", "No test records an event.",
  [TE+"logs/bridge.rs", TE+"logs.rs", TE+"layer.rs"], [("log bridge", TE+"logs/bridge.rs")], ["OtelLogsLayer", "otel::layer::build"])
p("T02", "Telemetry reaches exactly the configured targets, within its limits",
  "Spans, log records and metrics are exported to exactly the OTLP targets the configuration enables for each: the signal's own setting of each key wins over the global one (enabled, endpoint, headers, protocol, batching), Grafbase's collector gets spans and metrics unless switched off, and an endpoint given for all signals gets the signal's path exactly if it has none. After a flush every sampled span, every record and every measurement has arrived once at each target, with the configured headers and resource (service name and attributes), no more spans or records at once than the batch size. A span without a parent is sampled exactly if its trace id falls into the configured fraction; with parent-based sampling a span with a parent follows it, and otherwise it is decided alike. A span keeps at most the configured numbers of attributes, events and links, each event and link at most theirs, the first ones, and what is lost is counted. Counters are sums and histograms exponential, both of what was measured since the last export.",
  ["inputs", "histories"], "every configuration and every history of spans, records and measurements", "The tests of this crate do not export anything.",
  [TE+"traces.rs", TE+"logs.rs", TE+"metrics.rs", TE+"layer.rs", "crates/gateway-config/src/telemetry/mod.rs", "crates/gateway-config/src/telemetry/exporters/otlp.rs"],
  [("exporters", TE+"traces.rs")], ["otel::layer::build"])
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
