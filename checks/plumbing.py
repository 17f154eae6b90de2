"""C21: what a subgraph repeats of the federation protocol leaves no trace in the composed graph."""
import json, random
from vlib import comp, harness, render, tlc

LINK = {"v1": "", "v2": render.FED2 + "\n", "composite": render.COMPOSITE[3] + "\n"}
PIECES = {
    "service-type": ["type _Service { sdl: String }", "type _Service { sdl: String! }", '"What the server\nsays of itself" type _Service { "in full" sdl: String }'.replace("\n", " ")],
    "entity-union": ["union _Entity = User", '"An entity" union _Entity = User'],
    "federation-directives": ["directive @key(fields: String!) repeatable on OBJECT | INTERFACE\ndirective @external on FIELD_DEFINITION | OBJECT\n"
                              "directive @shareable repeatable on OBJECT | FIELD_DEFINITION\ndirective @tag(name: String!) repeatable on FIELD_DEFINITION | OBJECT",
                              "directive @key(fields: String!, resolvable: Boolean = true) repeatable on OBJECT | INTERFACE\ndirective @external(reason: String) on OBJECT | FIELD_DEFINITION\n"
                              "directive @shareable on FIELD_DEFINITION | OBJECT\ndirective @tag(name: String!) repeatable on OBJECT"],
    "link-directive": ["directive @link(url: String!, as: String, for: String, import: [String]) repeatable on SCHEMA"],
    "builtin-directives": ['directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT\ndirective @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT\n'
                           'directive @deprecated(reason: String = "No longer supported") on FIELD_DEFINITION | ENUM_VALUE\ndirective @specifiedBy(url: String!) on SCALAR'],
    "builtin-scalars": ["scalar String\nscalar ID\nscalar Int\nscalar Boolean\nscalar Float", '"The `String` scalar"\nscalar String\n"The `Int` scalar"\nscalar Int\nscalar ID\nscalar Boolean\nscalar Float'],
}

def sdl(rnd, c, has):
    q = "RootQuery" if c["style"] == "renamed" else "Query"
    link = LINK[{"plain": "v1", "renamed": "v2"}.get(c["style"], c["style"])]
    qf = []
    if "service-field" in has:
        qf.append(rnd.choice(["", '"The SDL" ', '"""\n  The\n  SDL\n  """\n  ']) + "_service: _Service!" + rnd.choice(["", " @deprecated", " @tag(name: \"t\")" if c["style"] in ("v2", "renamed") else ""]))
    if "entities-field" in has:
        qf.append(rnd.choice(["", '"Entities" ']) + "_entities(representations: [_Any!]!): [_Entity]!")
    rnd.shuffle(qf)
    user = "id: ID!\n  name: String" + {"entities-elsewhere": "\n  _entities: [Int]", "service-elsewhere": "\n  _service: String"}.get(c["fields"], "")
    parts = [f'type {q} {{\n  user(id: ID): User @deprecated(reason: "r")\n' + ("".join(f"  {x}\n" for x in qf) if c["place"] == "definition" else "") + "}",
             f'type User @key(fields: "id") {{\n  {user}\n}}']
    if qf and c["place"] == "extension":
        parts.append(f"extend type {q} {{\n" + "".join(f"  {x}\n" for x in qf) + "}")
    if c["fields"] == "mutation":
        parts.append("type Mutation { rename(id: ID!, to: String = \"x\"): User }")
    if "schema" in has:
        parts.append(f"schema {{ query: {q}" + (" mutation: Mutation" if c["fields"] == "mutation" else "") + " }")
    parts += [rnd.choice(PIECES[i]) for i in sorted(PIECES) if i in has]
    rnd.shuffle(parts)
    return link + "\n".join(parts) + "\n"

OTHER = {"none": [], "same": [("b", "type Query { again: User }\ntype User @key(fields: \"id\") { id: ID! age: Int }")],
         "plumbed": [("b", "type Query { again: User _service: _Service! _entities(representations: [_Any!]!): [_Entity]! }\ntype User @key(fields: \"id\") { id: ID! age: Int }\n"
                           "type _Service { sdl: String }\nunion _Entity = User\nscalar String")]}

def request(rnd, c, has):
    return {"op": "compose", "subgraphs": [{"name": "a", "sdl": sdl(rnd, c, has)}] + [{"name": n, "sdl": s} for n, s in OTHER[c["other"]]], "want": ["fed", "api", "dirdefs"]}

def c21(run):
    q = run.quick
    r = tlc.tlc("Plumbing", constants={"Styles": {"plain", "v2", "composite", "renamed"}, "Others": {"none", "same", "plumbed"}}, invariants=["NoTrace"])
    run.model("Plumbing", r)
    rnd = random.Random(run.seed)
    cases = sorted(r["cases"], key=lambda c: json.dumps(dict(c, has=sorted(c["has"])), sort_keys=True))
    cases = rnd.sample(cases, 16000 if q else len(cases))
    base = lambda c: ["schema"] if c["style"] == "renamed" else []
    keys = sorted({json.dumps({k: c[k] for k in ("style", "other", "place", "fields")}, sort_keys=True) for c in cases})
    plain = dict(zip(keys, harness.run([request(random.Random(0), json.loads(k), base(json.loads(k))) for k in keys])))
    for k, o in plain.items():
        if not o.get("ok"):
            run.violation(f"a subgraph without any plumbing does not compose: {k}: {comp.errors(o) or o}", {"request": request(random.Random(0), json.loads(k), base(json.loads(k))), "observed": o})
            return
    reqs = [request(rnd, c, c["has"]) for c in cases]
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        e = plain[json.dumps({k: c[k] for k in ("style", "other", "place", "fields")}, sort_keys=True)]
        run.validated(1, {"plumbing": sorted(c["has"]), "style": c["style"], "composes": o.get("ok")} if run.traces % 700 == 3 else None)
        what = f"a subgraph ({c['style']}) with {sorted(c['has'])} in its {c['place']}"
        ctx = {"request": rq, "observed": o, "without": e}
        if not o.get("ok"):
            run.violation(f"{what} does not compose: {o.get('panic') or comp.errors(o)[:2] or o}", ctx)
        elif "types" not in o["fed"]:
            run.violation(f"{what} makes a graph that cannot be read: {o['fed']}", ctx)
        elif o["fed"] != e["fed"]:
            names = lambda x: {t["name"] + "." + f["name"] for t in x["fed"]["types"] for f in t.get("fields") or [{"name": ""}]} | {"@" + d["name"] for d in x["fed"]["directives"]}
            run.violation(f"{what} leaves a trace in the composed graph: {sorted(names(o) ^ names(e)) or 'its directives or descriptions'}", ctx)
        elif o["api"] != e["api"]:
            run.violation(f"{what} leaves a trace in the client-facing schema", ctx)
    # the comparison tells a graph from one with a trace
    c = cases[0]
    o = harness.run([{"op": "compose", "subgraphs": [{"name": "a", "sdl": sdl(rnd, c, base(c)) + "type Trace { x: Int }\n"}] + [{"name": n, "sdl": s} for n, s in OTHER[c["other"]]], "want": ["fed", "api", "dirdefs"]}])[0]
    e = plain[json.dumps({k: c[k] for k in ("style", "other", "place", "fields")}, sort_keys=True)]
    if o["fed"] == e["fed"]:
        raise harness.ToolError("self-test: a trace was not seen")
    run.note("self-test: trace seen")

CHECKS = {"C21": c21}
NOTES = {"C21": ("Plumbing.tla", "TLC enumerates every subset of nine kinds of plumbing, over styles of subgraphs, places and neighbours; quick replays 16000 of them, thorough all. "
         "Observed: the federated SDL with its directive definitions, and the client-facing SDL, equal to those without the plumbing. Not covered: scalars and enums of the specifications (_Any, FieldSet, link__Import, …), which stay.")}
