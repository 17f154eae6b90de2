"""Fragments of two subgraphs' schemas, by feature name (spec/Features.tla enumerates the sets of them)."""
FED = ('extend schema @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@key", "@shareable", "@external", "@requires", "@provides", '
       '"@override", "@tag", "@inaccessible", "@interfaceObject", "@authenticated", "@requiresScopes", "@policy", "@composeDirective"])\n')
LINKS = {
 # a subgraph that links both specifications is a composite schema: its interface objects are not recognised
 "composite": 'extend schema @link(url: "https://specs.grafbase.com/composite-schemas/v1", import: ["@lookup", "@require", "@is", "@derive", "@internal"])\n',
 "custom": ('extend schema @link(url: "https://example.com/custom/v1.2", import: ["@custom"]) @composeDirective(name: "@custom")\n'
        'directive @custom(n: Int = 3, o: CIn, l: [String!]) repeatable on OBJECT | FIELD_DEFINITION | INTERFACE | UNION | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION | ARGUMENT_DEFINITION | SCALAR\n'
        'input CIn { x: Int y: [CIn!] }\n'),
 "extension": ('extend schema @link(url: "https://grafbase.com/extensions/ext1/1.0.0", import: ["@extra"])\n'
        'directive @extra(s: String, xs: [Int]) repeatable on OBJECT | FIELD_DEFINITION | INTERFACE | UNION | ENUM | ENUM_VALUE | SCALAR | SCHEMA\n'),
}
NEEDS = {"lookup": "composite", "lookup-is": "composite", "require": "composite", "derive": "composite", "internal": "composite", "custom": "custom", "extension": "extension"}
F = {
 "lookup": ('extend type Query { lkP(id: ID!): LkP @lookup } type LkP @key(fields: "id") { id: ID! n: Int }',
            'type LkP @key(fields: "id") { id: ID! m: Int }'),
 "lookup-is": ('extend type Query { liP(identifier: ID! @is(field: "id")): LiP @lookup liPs(ids: [ID!]! @is(field: "[id]")): [LiP!]! @lookup } type LiP @key(fields: "id") { id: ID! }',
               'type LiP @key(fields: "id") { id: ID! m: Int }'),
 "require": ('type RqP @key(fields: "id") { id: ID! w: Int @shareable d: RqD } type RqD { x: Int }',
             'type RqP @key(fields: "id") { id: ID! s(w: Int @require(field: "w"), x: Int @require(field: "d.x"), u: Int): Int }'),
 "derive": ('type DvP @key(fields: "id") { id: ID! n: Int }', 'type DvC { pId: ID! p: DvP @derive } type DvP @key(fields: "id") { id: ID! } extend type Query { dvc: DvC }'),
 "internal": ('extend type Query { inP(id: ID!): InP @lookup @internal inQ: Int @internal } type InP @key(fields: "id") { id: ID! } type InT @internal { a: Int }', 'type InP @key(fields: "id") { id: ID! m: Int }'),
 "listsize": ('extend type Query { ls(first: Int, last: Int): LsC @listSize(slicingArguments: ["first", "last"], sizedFields: ["es", "fs"], requireOneSlicingArgument: false) ls2: [Int] @listSize(assumedSize: 10) } type LsC { es: [Int] fs: [Int] }', ''),
 "cost": ('extend type Query { co(a: Int @cost(weight: 3)): CoE @cost(weight: -5) coi(i: CoI): CoS } enum CoE @cost(weight: 2) { A } input CoI { x: Int @cost(weight: 7) } scalar CoS @cost(weight: 0) type CoT @cost(weight: 11) @shareable { x: Int }', 'type CoT @shareable @cost(weight: 12) { x: Int }'),
 "oneof": ('input Of @oneOf { a: Int b: String } extend type Query { of(o: Of): Int }', ''),
 "override-progressive": ('type OvP @key(fields: "id") { id: ID! x: Int @override(from: "b", label: "percent(12)") y: Int @override(from: "b") z: Int @override(from: "elsewhere") }', 'type OvP @key(fields: "id") { id: ID! x: Int y: Int }'),
 "provides": ('type PvP @key(fields: "id") { id: ID! n: Int @external q: PvQ @external } type PvQ { z: Int @external } extend type Query { pv: PvP @provides(fields: "n q { z }") pvs: [PvP!] @provides(fields: "n") }', 'type PvP @key(fields: "id") { id: ID! n: Int q: PvQ } type PvQ { z: Int }'),
 "requires": ('type RsP @key(fields: "id a { b }") { id: ID! a: RsA n(x: Int, s: [String!]): Int @external u: RsU @external s: Int @requires(fields: "n(x: 3, s: [\\"q\\"]) u { __typename ... on RsV { v } }") } type RsA { b: Int @shareable } type RsV { v: Int @external } union RsU = RsV', 'type RsP @key(fields: "id a { b }") { id: ID! a: RsA n(x: Int, s: [String!]): Int u: RsU } type RsA { b: Int @shareable } type RsV { v: Int } union RsU = RsV'),
 "keys": ('type KyP @key(fields: "id") @key(fields: "a b", resolvable: false) @key(fields: "n { m }") { id: ID! a: Int b: Int n: KyN } type KyN { m: Int @shareable }', 'type KyP @key(fields: "id") @key(fields: "n { m }") { id: ID! n: KyN c: Int } type KyN { m: Int @shareable }'),
 "interface-object": ('interface IoI @key(fields: "id") { id: ID! t: Int } type IoA implements IoI @key(fields: "id") { id: ID! t: Int } type IoB implements IoI @key(fields: "id") { id: ID! t: Int }', 'type IoI @interfaceObject @key(fields: "id") { id: ID! r: [Int!] @tag(name: "io") }'),
 "interfaces": ('interface IfA { a: Int } interface IfB implements IfA { a: Int b: [IfA!] } type IfT implements IfB & IfA @shareable { a: Int b: [IfT!] } extend type Query { ifa: IfA }', 'interface IfA { a: Int } type IfT implements IfA @shareable { a: Int b: [IfT!] }'),
 "union": ('union UnU = UnA | UnB type UnA @shareable { x: Int } type UnB @shareable { y: Int } extend type Query { un: [UnU] }', 'union UnU @tag(name: "u") = UnB | UnC type UnB @shareable { y: Int } type UnC { z: Int }'),
 "enum": ('enum EnE { A @deprecated(reason: "no A") B @inaccessible C @tag(name: "c") } extend type Query { en: EnE }', 'enum EnE { A D }'),
 "inaccessible": ('type IaP @inaccessible { x: Int } type IaQ { x: Int @inaccessible y(a: Int @inaccessible, b: Int): Int } input IaI { x: Int @inaccessible y: Int } scalar IaS @inaccessible extend type Query { ia: IaP @inaccessible iq(i: IaI): IaQ }', ''),
 "auth": ('type AuT @authenticated { x: Int @requiresScopes(scopes: [["a", "b"], ["c"]]) y: Int @policy(policies: [["p"], ["q", "r"]]) } enum AuE @authenticated { A } scalar AuS @requiresScopes(scopes: [["s"]]) interface AuI @policy(policies: [["i"]]) { x: Int } extend type Query { au: AuT aue: AuE aus: AuS }', 'type AuT @requiresScopes(scopes: [["d"]]) { z: Int }'),
 "deprecated": ('extend type Query { dp(a: Int @deprecated(reason: "arg")): Int @deprecated dq: Int @deprecated(reason: "") } input DpI { x: Int @deprecated y: Int } enum DpE { A B @deprecated }', ''),
 "custom": ('type CuT @custom(n: 1) @custom(o: {x: 2, y: [{x: 3}]}) { x(a: Int @custom): Int @custom(l: ["a", "b"]) } enum CuE @custom { A @custom(n: 9) } input CuI @custom { x: Int @custom } scalar CuS @custom union CuU @custom = CuT interface CuF @custom { x: Int @custom } extend type Query { cu: CuT }', ''),
 "extension": ('extend type Query @extra(s: "q") { ex: ExT @extra(xs: [1, 2]) } type ExT @extra { x: Int } interface ExI @extra(s: "i") { x: Int } enum ExE @extra { A @extra } scalar ExS @extra(xs: []) union ExU @extra = ExT extend schema @extra(s: "schema")', 'type ExV @extra(s: "b") { x: Int @extra @extra(s: "twice") } extend type Query { exv: ExV }'),
 "defaults": ('input DfI { a: Int = 1 b: [DfE!] = [A, B] c: DfI = {a: 2} d: String = "x\\ny" e: Float = 1.5 f: Boolean = false g: ID = "i" h: [[Int]] = [[1], null] } enum DfE { A B } extend type Query { df(i: DfI = {a: 3, b: [A]}, e: DfE = B, n: Int = null): Int }', ''),
 "roots": ('type Mutation { m1(x: Int!): Int } type Subscription { s1: Int }', 'type Mutation { m2: Int @authenticated } type Subscription { s2: Int }'),
 "renamed-roots": ('', 'schema { query: RootQ mutation: RootM } type RootQ { rq: Int } type RootM { rm: Int }'),
 "descriptions": ('"""\nA type.\n\n  indented "quotes" and \\""" inside\n""" type DsT { "a field" x("an arg" a: Int = 1): Int } "scalar" scalar DsS """ u """ union DsU = DsT extend type Query { ds: DsT }', '"other" type DsT { "y" y: Int }'),
 "scalars": ('scalar ScA @specifiedBy(url: "https://example.com/\\"x\\"") scalar ScB @tag(name: "s") extend type Query { sc(a: ScA): [[ScB!]!]! }', 'scalar ScA'),
}
def head(used):
    return FED + "".join(LINKS[l] for l in sorted({NEEDS[f] for f in used if f in NEEDS}))
def composable(used):
    return not ("interface-object" in used and any(NEEDS.get(f) == "composite" for f in used))
def subgraphs(used):
    out = []
    for i, n in enumerate("ab"):
        body = "\n".join(F[f][i] for f in used)
        q = "" if i == 1 and "renamed-roots" in used else f"type Query {{ only{n}: Int }}\n"
        if i == 1 and "renamed-roots" in used:
            body = body.replace("extend type Query", "extend type RootQ").replace("type Mutation ", "extend type RootM ")
        out.append({"name": n, "sdl": head(used) + q + body})
    return out
EXTENSIONS = [{"link_url": "https://grafbase.com/extensions/ext1/1.0.0", "url": "https://grafbase.com/extensions/ext1/1.0.0", "name": "ext1"}]
def request(used, want):
    return {"op": "compose", "subgraphs": subgraphs(used), "want": list(want), "extensions": EXTENSIONS}
