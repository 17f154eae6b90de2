"""P01: introspection of a running subgraph."""
import json, random
from vlib import harness, tlc

SDLS = [
    "type Query { a: Int }",
    '''extend schema @link(url: "https://specs.apollo.dev/federation/v2.3", import: ["@key", "@shareable"])
"A product, \\"quoted\\"" type Product @key(fields: "upc") @key(fields: "sku package { id }", resolvable: false) { upc: String! sku: ID package: Package "how it is made" materials(first: Int = 10 @deprecated(reason: "no"), filter: Filter = {a: [1, null], b: HIGH}): [[String!]]! @shareable }
type Package @shareable { id: ID! } enum Level { HIGH @deprecated LOW } input Filter @oneOf { a: [Int], b: Level }
union Thing @tag(name: "x") = Product | Package scalar Date @specifiedBy(url: "https://x.y")
interface Node implements Base { id: ID! } interface Base { id: ID! } directive @mine(a: Int! = 1) repeatable on OBJECT | FIELD_DEFINITION
extend type Query { product(upc: String!): Product @mine(a: 2) @mine(a: 3) }''',
    'schema @mine { query: Root mutation: Change } directive @mine on SCHEMA type Root { a: Int } type Change { """\n  block "text"\n\n   indented\n""" a(x: String = "q\\"\\\\ \\n"): Boolean! }',
]
RAW = ["not graphql {", "type Query { a: Int", "type { }\n  keep   this"]

def named(kind, name): return {"kind": kind, "name": name, "ofType": None}
def listof(t): return {"kind": "LIST", "name": None, "ofType": t}
def nonnull(t): return {"kind": "NON_NULL", "name": None, "ofType": t}
INT, STR, ID = named("SCALAR", "Int"), named("SCALAR", "String"), named("SCALAR", "ID")
def inp(name, t, default=None, desc=None): return {"name": name, "description": desc, "type": t, "defaultValue": default}
def field(name, t, args=(), desc=None, reason=None):
    return {"name": name, "description": desc, "args": list(args), "type": t, "isDeprecated": reason is not None, "deprecationReason": reason}
def typ(kind, name, **kw):
    return dict({"kind": kind, "name": name, "description": None, "fields": None, "inputFields": None, "interfaces": None, "enumValues": None, "possibleTypes": None}, **kw)
BUILTIN = [typ("SCALAR", n) for n in ("String", "Int", "Boolean", "ID", "Float")] + [typ("OBJECT", "__Schema", fields=[field("types", listof(STR))], interfaces=[])]
DIRECTIVES = [{"name": "include", "description": "x", "locations": ["FIELD"], "args": [inp("if", nonnull(named("SCALAR", "Boolean")))]},
              {"name": "deprecated", "description": None, "locations": ["ENUM_VALUE"], "args": []}]
def schema(types, query="Query", mutation=None, subscription=None, directives=()):
    n = lambda x: {"name": x} if x else None
    return {"queryType": n(query), "mutationType": n(mutation), "subscriptionType": n(subscription), "types": BUILTIN[:2] + types + BUILTIN[2:], "directives": DIRECTIVES + list(directives)}
STANDARD = [
    (schema([typ("OBJECT", "Query", fields=[field("a", INT)], interfaces=[])]), "type Query { a: Int }"),
    (schema([typ("OBJECT", "Query", fields=[field("a", nonnull(listof(nonnull(listof(nonnull(INT))))), [inp("x", listof(nonnull(STR)), '["y", null]'), inp("in", named("INPUT_OBJECT", "In"), "{k: HIGH}")], "what it is"),
                                            field("b", named("UNION", "U"), reason="gone")], interfaces=[{"name": "Node"}]),
             typ("INTERFACE", "Node", fields=[field("b", named("UNION", "U"))], interfaces=[], possibleTypes=[{"name": "Query"}]),
             typ("UNION", "U", description="one of", possibleTypes=[{"name": "Query"}, {"name": "Other"}]),
             typ("OBJECT", "Other", fields=[field("id", nonnull(ID))], interfaces=[]),
             typ("ENUM", "Level", enumValues=[{"name": "HIGH", "description": "up", "isDeprecated": False, "deprecationReason": None}, {"name": "LOW", "description": None, "isDeprecated": True, "deprecationReason": "down"}]),
             typ("INPUT_OBJECT", "In", inputFields=[inp("k", named("ENUM", "Level"), "LOW"), inp("n", INT)]),
             typ("SCALAR", "Date", description="a day")]),
     '''type Query implements Node { "what it is" a(x: [String!] = ["y", null], in: In = {k: HIGH}): [[Int!]!]! b: U @deprecated(reason: "gone") }
interface Node { b: U } "one of" union U = Query | Other type Other { id: ID! } enum Level { "up" HIGH LOW @deprecated(reason: "down") } input In { k: Level = LOW n: Int } "a day" scalar Date'''),
    (schema([typ("OBJECT", "Root", fields=[field("a", INT)], interfaces=[]), typ("OBJECT", "Change", fields=[field("a", INT)], interfaces=[]), typ("OBJECT", "Told", fields=[field("a", INT)], interfaces=[])],
            "Root", "Change", "Told", [{"name": "mine", "description": None, "locations": ["OBJECT", "QUERY"], "args": [inp("a", INT, "3")]}]),
     "schema { query: Root mutation: Change subscription: Told } type Root { a: Int } type Change { a: Int } type Told { a: Int } directive @mine(a: Int = 3) on OBJECT | QUERY"),
]

def ok(v): return {"status": 200, "body": v if isinstance(v, str) else json.dumps(v)}
def service(kind, k):
    good = {"data": {"_service": {"sdl": SDLS[k]}}}
    return {"sdl": ok(good), "sdl with errors": ok(dict(good, errors=[{"message": "careful"}])),
            "sdl with more": ok({"extensions": {"a": 1}, "data": {"other": None, "_service": {"__typename": "_Service", "sdl": SDLS[k]}}}),
            "raw": ok({"data": {"_service": {"sdl": RAW[k]}}}), "empty": ok({"data": {"_service": {"sdl": ""}}}),
            "status 500": dict(ok(good), status=500), "status 404": dict(ok(good), status=404),
            "null service": ok({"data": {"_service": None}}), "null data": ok({"data": None, "errors": [{"message": "no"}]}), "no data": ok({}),
            "errors": ok({"errors": [{"message": "Cannot query field _service"}]}), "no sdl": ok({"data": {"_service": {}}}), "sdl is a number": ok({"data": {"_service": {"sdl": 3}}}),
            "not json": ok("<html>"), "list": ok([]), "closed": {}}[kind]
MESSAGES = [["not authorized"], ["a", "b, c"], ["introspection is disabled", "é"]]
def messages(kind, k): return (MESSAGES[k] + ["second"])[:1 if kind == "one error" else 2]
def standard(kind, k):
    s = STANDARD[k][0]
    broken = dict(s, types=s["types"] + [typ("OBJECT", None, fields=[], interfaces=[])])
    errors = [{"message": m, "locations": [{"line": 1, "column": 2}], "path": ["__schema"], "extensions": {"code": "X"}} if k else {"message": m} for m in (messages(kind, k))]
    return {"schema": ok({"data": {"__schema": s}}), "schema with more": ok({"extensions": {}, "data": {"__schema": dict(s, more=1), "more": 2}}),
            "one error": ok({"data": None, "errors": errors}), "two errors": ok({"errors": errors}), "errors with data": ok({"data": {"__schema": s}, "errors": errors}),
            "nothing": ok({}), "data is null": ok({"data": None}), "no schema": ok({"data": {"__schema": None}}), "unnamed type": ok({"data": {"__schema": broken}}),
            "no query type": ok({"data": {"__schema": dict(s, queryType=None)}}), "not json": ok("<html>"), "closed": {}, "status 500": {"status": 500, "body": "overloaded"}}[kind]

def p01(run):
    r = tlc.tlc("Introspection", invariants=["ServiceFirst", "OnlyBoth", "AskedOnce", "Say"], timeout=600)
    run.model("Introspection", r)
    cases = r["cases"]
    if run.quick:
        # every pair of answers with some headers and document
        random.Random(run.seed).shuffle(cases)
        seen, few = {}, []
        for c in cases:
            key = (c["service"], c["standard"] if len(c["asked"]) > 1 else "")
            if seen.setdefault(key, 0) < (3 if len(c["asked"]) > 1 else 15):
                seen[key] += 1
                few.append(c)
        cases = few
    meant = harness.run([{"op": "sdl_full", "sdl": s} for s in SDLS + [x[1] for x in STANDARD]])
    reqs = [{"op": "introspect", "headers": c["headers"], "service": service(c["service"], c["document"]), "standard": standard(c["standard"], c["document"])} for c in cases]
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, {k: c[k] for k in ("service", "standard", "headers")} if run.traces % 200 == 3 else None)
        wrong = judge(c, o, meant)
        if wrong:
            run.violation(f"{wrong} (service: {c['service']}, standard introspection: {c['standard']}, headers {c['headers']})", {"request": rq, "observed": o, "expected": c["result"]})

def unordered(s): return {k: sorted(v, key=repr) for k, v in s.items()} if "types" in s else s

def judge(c, o, meant):
    if "seen" not in o:
        return f"introspecting fails: {o}"
    asks = [s["asks"] for s in o["seen"]]
    if asks != [a["what"] for a in c["asked"]]:
        return f"the server is asked for {asks} instead of {[a['what'] for a in c['asked']]}"
    for s in o["seen"]:
        if not s["line"].startswith("POST /graphql "):
            return f"a request starts with {s['line']}"
        for name in {n.lower() for n, _ in c["headers"]}:
            want = [v for n, v in c["headers"] if n.lower() == name]
            got = [v for n, v in s["headers"] if n == name]
            if got != want:
                return f"the header {name} of the question for the {s['asks']} is {got} instead of {want}"
    how, k = c["result"][0], c["document"]
    if how == "service":
        want = {"raw": RAW[k], "empty": ""}.get(c["service"])
        if o.get("ok") is None or (o["ok"] != want if want is not None else unordered(o["schema"]) != unordered(meant[k])):
            return f"the schema is not the one the service gives: {o.get('ok', o.get('error'))!r}"
    elif how == "standard":
        if o.get("ok") is None or unordered(o["schema"]) != unordered(meant[3 + k]):
            return f"the schema is not the one the server describes: {o.get('ok', o.get('error'))!r}"
    elif how == "errors":
        m = messages(c["standard"], k)
        if "error" not in o or any(x not in o["error"] for x in m):
            return f"the errors {m} are told as {o.get('error', o.get('ok'))!r}"
    elif "error" not in o or not o["error"]:
        return f"a server that answers neither question is told as {o.get('error', o.get('ok'))!r}"

CHECKS = {"P01": p01}
NOTES = {"P01": ("Introspection.tla", "TLC enumerates every pair of answers (sixteen to the question for the service, thirteen to the standard introspection), five sets of headers and three documents; the thorough check replays all against a server of the loopback network, "
                 "the quick one some headers and documents of every pair. Redirects, timeouts and TLS are not covered; how the standard introspection is printed as SDL is the business of a library, and observed for three schemas.")}
