"""C17 (names of directives through @link) and C18 (custom directives)."""
import json, random
from vlib import comp, harness, project, tlc

# ---------------------------------------------------------------- C17
def link_sdl(rnd, l):
    imps = []
    for i in l["imports"]:
        at = "" if i["n"][0].isupper() else "@"
        if i["n"] == i["as"] and not i["bad"] and rnd.random() < 0.9:
            imps.append(f'"{at}{i["n"]}"' if rnd.random() < 0.8 else f'{{name: "{at}{i["n"]}"}}')
        else:
            imps.append(f'{{name: "{at}{i["n"]}", as: "{("" if at else "@") if i["bad"] else at}{i["as"]}"}}')
    a = [f'url: "{l["url"]["u"]}"'] + ([f'as: "{l["as"]}"'] if l["as"] else []) + ([f'import: [{", ".join(imps)}]'] if imps else [])
    rnd.shuffle(a)
    return "@link(" + ", ".join(a) + ")"

def spell(s):
    return "__".join(list(s["ns"]) + [s["n"]])
ARGS = '(name: "t", fields: "id", scopes: [["s"]], policies: [["p"]], weight: 5)'
ONLY = {"cost": "(weight: 5)"}
# effect of a meaning on an object type
EFFECT = {"tag": {"tags": ["t"]}, "inaccessible": {"inacc": True}, "authenticated": {"auth": True}, "requiresScopes": {"scopes": [("s",)]},
          "policy": {"policies": [("p",)]}, "cost": {"cost": [5]}, "key": {"key": [("id", True)]}, "composite-key": {"key": [("id", False)]}, "internal": {"internal": True}}

def schema_of(rnd, c, body):
    ls = [link_sdl(rnd, l) for l in c["links"]]
    if not ls:
        return body + "\ntype Query { q: Int }"
    how = rnd.randrange(3)
    if how == 0:
        head = "extend schema " + " ".join(ls)
    elif how == 1:
        head = "\n".join("extend schema " + l for l in ls)
    else:
        head = "schema " + ls[0] + " { query: Query }" + "".join("\nextend schema " + l for l in ls[1:])
    parts = [head, body + "\ntype Query { q: Int }"]
    return "\n".join(parts if rnd.random() < 0.7 else parts[::-1])

def links_cases(run, cases, rnd):
    reqs, meta = [], []
    for c in cases:
        res = sorted(((spell(r["s"]), r["m"]) for r in c["res"]))
        body = "\n".join(f'type T{i} @{s}{ONLY.get(m, ARGS)} {{ id: ID! y: Int }}' for i, (s, m) in enumerate(res))
        reqs.append({"op": "compose", "subgraphs": [{"name": "a", "sdl": schema_of(rnd, c, body), "url": False if c["virtual"] else None}], "want": ["fed"]})
        meta.append(("effects", c, res))
        # does the name allow sharing? (b neither shares nor overrides)
        share = [(s, m) for s, m in res if m in ("shareable", "nothing", "custom", "tag", "authenticated", "requiresScopes")]
        body = "\n".join(f'type T{i} @{s}{ARGS} {{ y: Int }}' for i, (s, m) in enumerate(share))
        b = 'extend schema @link(url: "https://specs.apollo.dev/federation/v2.9")\n' + "\n".join(f"type T{i} {{ y: Int }}" for i in range(len(share)))
        reqs.append({"op": "compose", "subgraphs": [{"name": "a", "sdl": schema_of(rnd, c, body), "url": False if c["virtual"] else None}, {"name": "b", "sdl": b}], "want": []})
        meta.append(("sharing", c, share))
    for (kind, c, res), rq, o in zip(meta, reqs, harness.run(reqs)):
        run.validated(1, {"links": c["links"], "virtual": c["virtual"], "meanings": {s: m for s, m in res if m not in ("nothing",)}} if run.traces % 500 == 2 else None)
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k != "fed"}}
        if "panic" in o or "crash" in o or "ingest_error" in o:
            run.violation(f"composition crashes or refuses to read the subgraph: {o}", ctx)
            continue
        if c["bad"]:
            if o["ok"]:
                run.violation(f"a directive imported under the name of a type, or a type under the name of a directive, must be refused: {c['links']}", ctx)
            continue
        if c["clash"]:
            if o["ok"]:
                run.violation(f"two extensions of one name must be refused: {c['links']}", ctx)
            continue
        if kind == "effects":
            if not o["ok"]:
                run.violation(f"links {c['links']}: composition fails: {comp.errors(o)[:2]}", ctx)
                continue
            T = {t["name"]: t for t in o["fed"]["types"]}
            for i, (s, m) in enumerate(res):
                if m == "unspecified":
                    continue
                t = T.get(f"T{i}")
                if t is None:
                    run.violation(f"@{s} ({m}) removed its type", ctx)
                    break
                g = project.merged(t["dirs"])
                g["key"] = sorted((a["key"], a.get("resolvable", True)) for n, a in t["dirs"] if n == "join__type" and "key" in a)
                g["internal"] = any(n.startswith("composite__internal") for n, a in t["dirs"])
                e = dict({"tags": [], "inacc": False, "auth": False, "scopes": [], "policies": [], "cost": [], "key": [], "internal": False}, **EFFECT.get(m, {}))
                d = {k: (v, g[k]) for k, v in e.items() if v != g[k]}
                if d:
                    run.violation(f"@{s} must mean {m} with the links {[link_sdl(random.Random(0), l) for l in c['links']]}{' in a virtual subgraph' if c['virtual'] else ''}: {d}", ctx)
                    break
        else:
            msgs = " ".join(comp.errors(o))
            for i, (s, m) in enumerate(res):
                refused = f"`T{i}.y`" in msgs or f"T{i}.y" in msgs.replace("`", " ").split()
                want = c["v2"] and m != "shareable"
                if refused != want:
                    run.violation(f"@{s} must mean {m} with the links {[link_sdl(random.Random(0), l) for l in c['links']]}{' in a virtual subgraph' if c['virtual'] else ''}: sharing the field is {'refused' if refused else 'accepted'}", ctx)
                    break

def c17(run):
    q = run.quick
    rnd = random.Random(run.seed)
    inv = ["OtherLinksAreInert", "MeansSomethingLinked"]
    r = tlc.tlc("Links", constants={"MaxLinks": 1, "Random": False}, invariants=inv)
    run.model("Links", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
    for x in cases:
        x["res"].sort(key=lambda y: spell(y["s"]))
    links_cases(run, cases, rnd)
    r = tlc.simulate_many("Links", 1600 if q else 40000, 8, run.seed, depth=101, constants={"MaxLinks": 3, "Random": True}, invariants=inv)
    run.model("Links", r)
    links_cases(run, r["cases"], rnd)

# ---------------------------------------------------------------- C18
EXT = "https://grafbase.com/extensions/meta/1.0.0"
LOCS = "OBJECT | FIELD_DEFINITION | INTERFACE | INPUT_OBJECT | INPUT_FIELD_DEFINITION | ENUM | ENUM_VALUE | UNION | SCALAR | ARGUMENT_DEFINITION | SCHEMA"
# the schema around one application site; `shared`: the same element in every subgraph
def body(site, sg, shared, u):
    x = "" if shared else sg.upper()
    f = "" if shared else sg
    at = lambda s: u if s == site else ""
    sh = " @shareable"
    return f"""
type Query {at("root")} {{ q{f}(arg{f}: Int {at("argument")}): Int{sh} {at("query-field")} }}
type Ob{x}{sh} {at("object")} {{ fi: Int {at("field")} }}
extend type Ob{x} {at("object-extension")} {{ fe: Int{sh} }}
interface If{x} {at("interface")} {{ fi: Int {at("interface-field")} }}
type Ifo{x} implements If{x}{sh} {{ fi: Int }}
input In{x} {at("input")} {{ fi: Int {at("input-field")} }}
enum En{x} {at("enum")} {{ VA {at("enum-value")} }}
extend enum En{x} {at("enum-extension")} {{ VB }}
union Un{x} {at("union")} = Ob{x}
scalar Sc{x} {at("scalar")}
"""
def site_dirs(fed, site, sg, shared):
    x, f = ("", "") if shared else (sg.upper(), sg)
    if site == "schema":
        links = [a for t in fed["types"] if t["name"] == "extension__Link" for v in t["values"] for n, a in v["dirs"] if n == "extension__link" and v["name"] == "META"]
        return [d for s in fed["schema"] for d in s["dirs"]] + [
            ("extension__directive", {"graph": d["object"]["graph"], "extension": {"enum": "META"}, "name": d["object"]["name"], "arguments": d["object"]["arguments"]})
            for a in links for d in a.get("schemaDirectives", [])]
    T = {t["name"]: t for t in fed["types"]}
    by = lambda xs, n: next(y for y in xs if y["name"] == n)
    t = {"object": "Ob" + x, "object-extension": "Ob" + x, "field": "Ob" + x, "query-field": "Query", "root": "Query", "argument": "Query", "interface": "If" + x, "interface-field": "If" + x,
         "input": "In" + x, "input-field": "In" + x, "enum": "En" + x, "enum-extension": "En" + x, "enum-value": "En" + x, "union": "Un" + x, "scalar": "Sc" + x}[site]
    t = T[t]
    if site in ("field", "interface-field", "input-field"):
        t = by(t["fields"], "fi")
    elif site == "query-field":
        t = by(t["fields"], "q" + f)
    elif site == "argument":
        t = by(by(t["fields"], "q" + f)["args"], "arg" + f)
    elif site == "enum-value":
        t = by(t["values"], "VA")
    return t["dirs"]

def custom_sdl(c, o, sg, i):
    l = o["link"]
    url = EXT if l.startswith("extension") else "https://example.com/meta/v1.0"
    how = l.split("-")[-1]
    name = {"imported": "note", "renamed": "memo", "prefixed": "meta__note", "none": "note"}[how]
    imp = {"imported": ', import: ["@note"]', "renamed": ', import: [{name: "@note", as: "@memo"}]', "prefixed": ""}.get(how)
    if how == "prefixed" and l.startswith("extension"):
        imp = ', as: "meta"'      # the version in the url of an extension is not the version of a link url: no namespace without `as`
    links = ' @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@shareable", "@composeDirective"])'
    if l != "none":
        links += f' @link(url: "{url}"{imp})'
    comp_ = f' @composeDirective(name: "@{name}")' if o["composed"] else ""
    uses = " ".join(f'@{name}(n: {u}, s: "{sg}")' for u in o["uses"])
    d = f"directive @{name}(n: Int, s: String) repeatable on {LOCS}\n" if o["defined"] else ""
    return f'extend schema{links}{comp_}\n' + (f"extend schema {uses}\n" if c["site"] == "schema" and uses else "") + d

def c18_applications(run, cases):
    metas, reqs = [], []
    for c in cases:
        for shared in (False, True):
            if shared and c["site"] in ("schema",):
                continue
            sgs = []
            for i, o in enumerate(c["opts"]):
                sg = "abc"[i]
                l = o["link"].split("-")[-1]
                name = {"imported": "note", "renamed": "memo", "prefixed": "meta__note", "none": "note"}[l]
                u = " ".join(f'@{name}(n: {k}, s: "{sg}")' for k in o["uses"])
                sgs.append({"name": sg, "sdl": custom_sdl(c, o, sg, i) + body(c["site"], sg, shared, u)})
            reqs.append({"op": "compose", "subgraphs": sgs, "want": ["fed", "dirdefs"], "extensions": [{"link_url": EXT, "url": EXT, "name": "meta"}]})
            metas.append((c, shared))
    for (c, shared), rq, o in zip(metas, reqs, harness.run(reqs)):
        run.validated(1, {"site": c["site"], "options": c["opts"], "outcome": c["out"]} if run.traces % 900 == 7 else None)
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k != "fed"}, "expected": c["out"]}
        what = f"@note on {c['site']} ({'the same element' if shared else 'elements of their own'}), {[(x['link'], 'composed' if x['composed'] else 'not composed', 'defined' if x['defined'] else 'not defined', x['uses']) for x in c['opts']]}"
        if "panic" in o or "crash" in o or "ingest_error" in o:
            run.violation(f"{what}: composition crashes or refuses to read the subgraph: {o}", ctx)
            continue
        if not o["ok"]:
            run.violation(f"{what}: composition fails: {comp.errors(o)[:2]}", ctx)
            continue
        for i in range(len(c["opts"])):
            sg = "abc"[i]
            got_plain, got_ext = [], []
            for n, a in site_dirs(o["fed"], c["site"], sg, shared):
                if n == "extension__directive":
                    if a["graph"]["enum"] == sg.upper():
                        got_ext.append((a["name"], a["extension"]["enum"], a["arguments"]["object"].get("n"), a["arguments"]["object"].get("s")))
                elif a.get("s") == sg or (n in ("note", "memo", "meta__note") and "s" not in a):
                    got_plain.append((n, a.get("n"), a.get("s")))
            e = c["out"][i]
            want_ext = [("note", "META", k, sg) for k in e["uses"]] if e["extension"] else []
            want_plain = [("note", k, sg) for k in e["uses"]] if not e["extension"] else []
            if (sorted(got_ext), sorted(got_plain)) != (sorted(want_ext), sorted(want_plain)):
                sig = "locally-defined-dropped" if c["local"][i] and not got_plain and not got_ext else None
                run.violation(f"{what}: subgraph {sg} must contribute {want_ext + want_plain}, the composed graph has {got_ext + got_plain}", ctx, sig=sig)
                if sig is None:
                    break

def c18_definitions(run, cases):
    reqs = []
    for c in cases:
        sgs = []
        for i, d in enumerate(c["defs"]):
            args = ", ".join(f'{a["n"]}: {a["t"]}' + (f' = {a["def"]}' if a["def"] else "") for a in d["args"])
            de = f'directive @note{"(" + args + ")" if args else ""}{" repeatable" if d["rep"] else ""} on {" | ".join(sorted(d["locs"]))}\n' if d["here"] else ""
            sgs.append({"name": "abc"[i], "sdl": 'extend schema @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@composeDirective"]) @link(url: "https://example.com/meta/v1.0", import: ["@note"]) @composeDirective(name: "@note")\n'
                        + de + f"type Query {{ q{i}: Int }}"})
        reqs.append({"op": "compose", "subgraphs": sgs, "want": ["fed", "dirdefs"]})
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, {"definitions": c["defs"], "merged": c["def"] if c["ok"] else "conflict"} if run.traces % 900 == 11 else None)
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k != "fed"}, "expected": c}
        what = [s["sdl"].splitlines()[1] for s in rq["subgraphs"]]
        if "ok" not in o:
            run.violation(f"{what}: composition crashes: {o}", ctx)
            continue
        if o["ok"] != c["ok"]:
            run.violation(f"the definitions {what} are {'merged' if o['ok'] else 'refused: ' + str(comp.errors(o)[:1])}", ctx)
            continue
        if not o["ok"]:
            continue
        ds = [d for d in o["fed"]["directives"] if d["name"] == "note"]
        if len(ds) != (1 if c["def"]["here"] else 0):
            run.violation(f"{what}: {len(ds)} definitions in the composed graph", ctx)
            continue
        if ds:
            g = ([(a["name"], a["type"], project.default(a)) for a in ds[0]["args"]], sorted(ds[0]["locations"]))
            e = ([(a["n"], a["t"], [a["def"]] if a["def"] else []) for a in c["argset"]], sorted(c["def"]["locs"]))
            if (sorted(g[0]), g[1]) != (sorted(e[0]), e[1]):
                run.violation(f"{what}: merged to {g}, must be {e}", ctx)
            elif ds[0]["repeatable"] != c["def"]["rep"]:
                run.violation(f"{what}: the merged definition is {'repeatable' if ds[0]['repeatable'] else 'not repeatable'}", ctx, sig="repeatable-not-rendered" if c["def"]["rep"] else None)

def c18_aliases(run):
    """The definition of a directive that is renamed or prefixed must define the name its applications have in the graph."""
    for how, link, name in (("renamed", ', import: [{name: "@note", as: "@memo"}]', "memo"), ("prefixed", "", "meta__note")):
        rq = {"op": "compose", "subgraphs": [{"name": "a", "sdl": f'extend schema @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@composeDirective"]) @link(url: "https://example.com/meta/v1.0"{link}) @composeDirective(name: "@{name}")\ndirective @{name}(n: Int) on OBJECT\ntype Query {{ q: X }}\ntype X @{name}(n: 1) {{ x: Int }}'}], "want": ["fed", "dirdefs"]}
        o = harness.run([rq])[0]
        run.validated(1)
        if not o.get("ok"):
            run.violation(f"a {how} composed directive does not compose: {o}", {"request": rq})
            continue
        if "note" not in [d["name"] for d in o["fed"]["directives"]]:
            run.violation(f"the definition of a {how} composed directive is not the one of the name it is applied under", {"request": rq, "observed": o["fed"]["directives"]}, sig="definition-of-renamed-directive")

def c18_asking(run):
    """Which uses of @composeDirective ask for what."""
    q = run.quick
    r = tlc.tlc("Asking", constants={"Max": 2 if q else 3}, invariants=["Monotonic", "OrderDoesNotMatter"])
    run.model("Asking", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
    cases = random.Random(run.seed).sample(cases, 3000) if q else random.Random(run.seed).sample(cases, min(60000, len(cases)))
    FED = 'https://specs.apollo.dev/federation/v2.9'
    reqs = []
    for c in cases:
        name = {"imported": "composeDirective", "prefixed": "federation__composeDirective", "renamed": "keep", "unlinked": "composeDirective"}[c["spelling"]]
        fed = {"imported": f'@link(url: "{FED}", import: ["@composeDirective"])', "prefixed": f'@link(url: "{FED}", import: ["@key"])',
               "renamed": f'@link(url: "{FED}", import: [{{name: "@composeDirective", as: "@keep"}}])', "unlinked": ""}[c["spelling"]]
        links = fed + ' @link(url: "https://example.com/spec/v1.0", import: ["@note", "@other"]) @link(url: "https://example.com/far/v1.0")'
        use = lambda p: " ".join(f"@{name}{x['t']}" for x in c["asked"] if x["place"] == p)
        head = (f"schema {use('definition')} {{ query: Query }}" + (f"\nextend schema {links} {use('extension')}" if links else "")) if use("definition") else f"extend schema {links} {use('extension')}"
        sdl = head + "\ntype Query { q: Int @note(n: 1) @other(n: 2) @far__mark(n: 3) }" + (f"\nextend schema {use('after')}" if use("after") else "") + "\n"
        reqs.append({"op": "compose", "subgraphs": [{"name": "a", "sdl": sdl}] + ([{"name": "b", "sdl": "type Query { p: Int @note(n: 1) @other(n: 1) @mark(n: 1) @absent(n: 1) }"}] if c["again"] else []), "want": ["fed"]})
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, {"asked": c["asked"], "kept": c["kept"]} if run.traces % 900 == 13 else None)
        what = f"@composeDirective ({c['spelling']}) {[x['t'] for x in c['asked']]}"
        ctx = {"request": rq, "observed": o, "expected": {"kept": c["kept"], "refused": c["refused"]}}
        if "ok" not in o:
            run.violation(f"{what}: composition crashes: {o}", ctx)
        elif o["ok"] == c["refused"]:
            run.violation(f"{what}: must be {'refused' if c['refused'] else 'accepted'}: {comp.errors(o)[:2]}", ctx)
        elif o["ok"]:
            fs = {f["name"]: f for t in o["fed"]["types"] if t["name"] == "Query" for f in t["fields"]}
            own = lambda f: sorted(n for n, a in fs[f]["dirs"] if not n.startswith("join__"))
            if own("q") != sorted(c["kept"]) or (c["again"] and own("p")):
                run.violation(f"{what}: the composed graph keeps {own('q')}{own('p') if c['again'] else ''}, must keep {sorted(c['kept'])}", ctx)

def c18(run):
    q = run.quick
    c18_asking(run)
    rnd = random.Random(run.seed)
    r = tlc.tlc("Custom", constants={"N": 2, "Quick": q}, invariants=["NeverUninvited"])
    run.model("Custom", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
    c18_applications(run, rnd.sample(cases, 4500) if q else rnd.sample(cases, min(len(cases), 40000)))
    r = tlc.tlc("Definitions", constants={"N": 2, "Small": q}, invariants=["EachArgumentOnce", "OrderDoesNotMatter", "ConflictsStay"])
    run.model("Definitions", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
    c18_definitions(run, rnd.sample(cases, min(len(cases), 5000)) if q else rnd.sample(cases, min(len(cases), 60000)))
    c18_aliases(run)

# ---------------------------------------------------------------- C20
def ext_request(rnd, c):
    graphs = {}
    for i, l in enumerate(c["links"], 1):
        graphs.setdefault(l["g"], []).append((i, l))
    sgs = []
    for g in sorted(graphs):
        head, root, schema = [], [], []
        ls = graphs[g]
        for i, l in ls:
            alone = sum(1 for _, m in ls if (m["as"] or m["url"]["name"]).lower() == l["as"].lower()) == 1
            prefixed = l["as"] not in ("", "my-auth") and alone and not l["asked"] and rnd.random() < 0.5
            name = f'{l["as"]}__r' if prefixed else f"r{i}"
            imp = "" if prefixed else f', import: [{{name: "@r", as: "@r{i}"}}]'
            head.append(f'@link(url: "{l["url"]["u"]}"' + (f', as: "{l["as"]}"' if l["as"] else "") + imp + ")")
            if l["use"] in ("field", "both"):
                root.append(f"@{name}(n: {i})")
            if l["use"] in ("schema", "both"):
                schema.append(f"@{name}(n: {i})")
            if l["asked"]:
                schema.append(f'@composeDirective(name: "@{name}")')
        if rnd.random() < 0.5:
            top = "extend schema " + " ".join(head + schema)
        else:
            top = "schema " + " ".join(head + schema) + " { query: Query }"
        sgs.append({"name": "abcdefgh"[g - 1], "sdl": f"{top}\ntype Query {{ q{g}: Int {' '.join(root)} }}"})
    return {"op": "compose", "subgraphs": sgs, "want": ["fed", "roundtrip"]}

def c20_cases(run, cases, rnd):
    reqs = [ext_request(rnd, c) for c in cases]
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, {"links": c["links"], "conflict": c["conflict"], "listed": c["listed"]} if run.traces % 700 == 9 else None)
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k != "fed"}, "expected": c}
        what = f"links {[(l['g'], l['url']['u'], l['as'], l['use'], l['asked']) for l in c['links']]}"
        if "ok" not in o:
            run.violation(f"{what}: composition crashes: {o}", ctx)
            continue
        refused = c["conflict"] or c["asked"]
        if o["ok"] == refused:
            run.violation(f"{what}: must be {'refused' if refused else 'accepted'}: {comp.errors(o)[:2]}", ctx)
            continue
        if not o["ok"]:
            if not any("multiple extensions" in m and c["conflict"] or "must not be composed" in m and c["asked"] for m in comp.errors(o)):
                run.violation(f"{what}: refused for another reason: {comp.errors(o)[:2]}", ctx)
            continue
        if "types" not in o["fed"]:
            run.violation(f"{what}: the composed graph cannot be read: {o['fed']}", ctx)
            continue
        enums = [t for t in o["fed"]["types"] if t["name"] == "extension__Link"]
        values = [(v["name"], a) for t in enums for v in t["values"] for n, a in v["dirs"] if n == "extension__link"]
        names = [n for n, _ in values]
        listed = {x["url"]: x for x in c["listed"]}
        if len(enums) > 1 or len(set(names)) != len(names):
            run.violation(f"{what}: the composed graph gives one name to several extensions: {[(n, a['url']) for n, a in values]}", ctx)
            continue
        if sorted(a["url"] for _, a in values) != sorted(listed) or (enums and not values):
            run.violation(f"{what}: the composed graph lists {sorted(a['url'] for _, a in values)}, must list {sorted(listed)}", ctx)
            continue
        bad = [(n, a["url"]) for n, a in values if listed[a["url"]]["alone"] and n not in listed[a["url"]]["names"]]
        if bad:
            run.violation(f"{what}: named {bad}, must be named {listed}", ctx)
            continue
        url = {n: a["url"] for n, a in values}
        got = []
        for t in o["fed"]["types"]:
            for f in t.get("fields") or []:
                for n, a in f["dirs"]:
                    if n == "extension__directive":
                        got.append((a["graph"]["enum"], "field", a["arguments"]["object"].get("n"), url.get(a["extension"]["enum"]), a["name"]))
        for _, a in values:
            for d in a.get("schemaDirectives", []):
                d = d["object"]
                got.append((d["graph"]["enum"], "schema", d["arguments"]["object"].get("n"), a["url"], d["name"]))
        want = [("ABCDEFGH"[x["g"] - 1], x["at"], x["n"], x["url"], "r") for x in c["applied"]]
        if sorted(map(str, got)) != sorted(map(str, want)):
            run.violation(f"{what}: the applications {got} must be {want}", ctx)
        elif not o["roundtrip"].get("same"):
            run.violation(f"{what}: reading the composed graph back changes it: {o['roundtrip']}", ctx)

def c20(run):
    q = run.quick
    rnd = random.Random(run.seed)
    inv = ["VersionsAgree", "NothingUnused", "AllListed"]
    r = tlc.tlc("Extensions", constants={"MaxLinks": 2, "Random": False}, invariants=inv)
    run.model("Extensions", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c["links"], sort_keys=True))
    for x in cases:
        x["listed"].sort(key=lambda y: y["url"])
    c20_cases(run, rnd.sample(cases, 6000) if q else cases, rnd)
    r = tlc.simulate_many("Extensions", 1600 if q else 40000, 8, run.seed, depth=101, constants={"MaxLinks": 4, "Random": True}, invariants=inv)
    run.model("Extensions", r)
    c20_cases(run, r["cases"][:6000] if q else r["cases"], rnd)

CHECKS = {"C17": c17, "C18": c18, "C20": c20}
NOTES = {"C17": ("Links.tla", "Every single link declaration over 19 urls, 5 namespaces and 11 import lists, in ordinary and virtual subgraphs, and random sets of two or three links; 54 spellings each; imports that name a type as a directive or the other way round are refused. Not specified: the same name imported twice, a namespace linked twice, the prefixed form of an imported name, the federation__ prefix without a link that gives it."),
         "C18": ("Custom.tla, Definitions.tla, Asking.tla", "Sequences of @composeDirective uses (13 arguments, 3 places, 4 spellings of the directive). Two subgraphs, 16 kinds of elements, 7 ways of linking, requested or not, defined or not, up to two applications; every pair of definitions over two arguments with 8 shapes, 3 location sets and repeatability (quick: a sample)."),
         "C20": ("Extensions.tla", "Every pair of links over 24 urls, 5 aliases and 4 ways of use (quick: a sample), and random sets of up to four links in three subgraphs; the composed graph is read back once more.")}
