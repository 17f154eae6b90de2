"""C14 (round trip), C15 (well-formedness) and C16 (a graph exactly when no error): the texts composition puts out."""
import json, random, re, unicodedata, zlib
from vlib import comp, features, harness, project, render, tlc
from checks import access
from vlib.project import BUILTIN

# the characters of the classes of Text.tla; which one stands for a class varies with the string and the place in it
CHAR = {"a": "xZ0_-{}#,$&", "s": " ", "n": "\n", "t": "\t", "q": '"', "b": "\\", "c": "\u0007\u0001\u0008\u000c\u001f\u007f\u000d\u0085\u009f\u001b", "u": "é€漢ß\u2028\ufffd\u3000\u00a0й"}
def chars(s):
    h = zlib.crc32("".join(s).encode())
    return "".join(CHAR[c][(h + 7 * i) % len(CHAR[c])] for i, c in enumerate(s))
def quote(s):
    return '"' + "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t"}.get(c, f"\\u{ord(c):04x}" if unicodedata.category(c) == "Cc" else c) for c in s) + '"'

LINKS = ('extend schema @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@key", "@shareable", "@external", "@override", "@tag", '
         '"@inaccessible", "@authenticated", "@requiresScopes", "@policy", "@composeDirective"]) '
         '@link(url: "https://example.com/audit/v1.0", import: ["@audit"]) @composeDirective(name: "@audit") '
         '@link(url: "https://grafbase.com/extensions/ext1/1.0.0", import: ["@extra"])\n')

def holder(s):
    """A subgraph with the string at every position a string can have."""
    q = quote(s)
    return LINKS + f'''
directive @audit(note: String = {q}) on OBJECT | FIELD_DEFINITION | ENUM_VALUE | INPUT_FIELD_DEFINITION | ARGUMENT_DEFINITION | SCALAR
directive @extra(note: String) on FIELD_DEFINITION | OBJECT
{q} type Query @audit(note: {q}) @extra(note: {q}) {{
  {q} a({q} x: String = {q} @audit(note: {q}), l: [String] = [{q}, {q}], o: I = {{s: {q}}}): Int @audit(note: {q}) @extra(note: {q})
  dep: Int @deprecated(reason: {q})
  tag: Int @tag(name: {q})
  sc: Int @requiresScopes(scopes: [[{q}]])
  po: Int @policy(policies: [[{q}]])
  ov: Int @override(from: {q})
  e: E u: U i: F s: S p: P
}}
{q} enum E {{ {q} A @deprecated(reason: {q}) B @audit(note: {q}) }}
{q} input I {{ {q} s: String = {q} l: [String] = [{q}] }}
{q} scalar S @audit(note: {q})
{q} union U = P
{q} interface F {{ {q} f: Int }}
{q} type P implements F @key(fields: {quote("k(x: " + q + ")")}) {{ {q} f: Int {q} k({q} x: String): ID! }}
'''

def by_name(xs, n):
    return next(x for x in xs if x["name"] == n)
def holder_at(ast, fed):
    """position -> the string found there"""
    T = {t["name"]: t for t in ast["types"]}
    out = {}
    def desc(where, x):
        out["description of " + where] = x.get("desc")
    def arg(where, x, d, a):
        v = [m.get(a) for n, m in x["dirs"] if n == d]
        out[f"@{d} on {where}"] = v[0] if len(v) == 1 else v
    Q = T["Query"]
    f = lambda n, t=Q: by_name(t["fields"], n)
    desc("Query", Q); desc("Query.a", f("a"))
    for n in "EISUFP":
        desc(n, T[n])
    desc("E.A", by_name(T["E"]["values"], "A")); desc("I.s", by_name(T["I"]["fields"], "s"))
    desc("F.f", f("f", T["F"])); desc("P.f", f("f", T["P"])); desc("P.k", f("k", T["P"]))
    ax, al, ao = (by_name(f("a")["args"], n) for n in "xlo")
    desc("Query.a(x)", ax); desc("P.k(x)", by_name(f("k", T["P"])["args"], "x"))
    out["default of Query.a(x)"] = ax.get("default", [None])[0]
    out["default of Query.a(l)"] = (al.get("default") or [None])[0]
    out["default of Query.a(o)"] = (ao.get("default") or [None])[0]
    out["default of I.s"] = by_name(T["I"]["fields"], "s").get("default", [None])[0]
    out["default of I.l"] = by_name(T["I"]["fields"], "l").get("default", [None])[0]
    arg("Query.dep", f("dep"), "deprecated", "reason"); arg("E.A", by_name(T["E"]["values"], "A"), "deprecated", "reason")
    if fed:
        arg("Query.tag", f("tag"), "tag", "name")
        arg("Query.sc", f("sc"), "requiresScopes", "scopes"); arg("Query.po", f("po"), "policy", "policies")
        ov = [m.get("override") for n, m in f("ov")["dirs"] if n == "join__field"]
        out["@override on Query.ov"] = ov[0] if len(ov) == 1 else ov
        for w, x in (("Query", Q), ("Query.a", f("a")), ("Query.a(x)", ax), ("E.B", by_name(T["E"]["values"], "B")), ("S", T["S"])):
            arg(w, x, "audit", "note")
        for w, x in (("Query", Q), ("Query.a", f("a"))):
            ex = [m.get("arguments") for n, m in x["dirs"] if n == "extension__directive"]
            out["@extra on " + w] = ex[0]["object"].get("note") if len(ex) == 1 and ex[0] else ex
        keys = [m.get("key") for n, m in T["P"]["dirs"] if n == "join__type"]
        out["@key on P"] = keys[0] if len(keys) == 1 else keys
    return out
def holder_want(where, s):
    if where.endswith(("Query.a(l)",)):
        return [s, s]
    if where.endswith("Query.a(o)"):
        return {"object": {"s": s}}
    if where.endswith("I.l"):
        return [s]
    if where.endswith(("Query.sc", "Query.po")):
        return [[s]]
    return s

def roundtrip(run, req, o, what):
    """Whether the federated schema comes back unchanged from its own text."""
    r = o.get("roundtrip")
    if "panic" in o or "crash" in o:
        run.violation(f"{what}: crash: {o.get('panic') or o.get('crash')}", {"request": req, "observed": o})
        return False
    if r is None:
        return True
    if "error" in r:
        run.violation(f"{what}: the federated schema cannot be read back: {r['error'][:500]}", {"request": req, "observed": o})
        return False
    for k, a, b in (("same", "fed1", "fed2"), ("api_same", "api1", "api2")):
        if not r[k]:
            l = [(x, y) for x, y in zip(r[a].split("\n"), r[b].split("\n")) if x != y][:2] or [("length", len(r[a]), len(r[b]))]
            run.violation(f"{what}: the {'federated' if k == 'same' else 'client-facing'} schema changes when read back: {l}", {"request": req, "observed": r})
            return False
    return True

# ---------------------------------------------------------------- well-formedness
BUILTIN_DIRECTIVES = {"deprecated", "specifiedBy", "oneOf", "skip", "include"}
# the executable semantics of these is fixed: rendered without definitions (pinned by every snapshot)
FEDERATED_DIRECTIVES = {"tag", "inaccessible", "authenticated", "requiresScopes", "policy", "link", "cost", "listSize", "composeDirective",
    "extension__directive", "extension__link"}
def base(t):
    return re.sub(r"[\[\]!]", "", t)

def ill_formed(ast, fed):
    """Problems of a type-system document: [(kind, text)]."""
    out = []
    if "types" not in ast:
        return [("parse", f"does not parse: {str(ast)[:300]}")]
    names = [t["name"] for t in ast["types"] if not t.get("ext")]
    for n in set(names):
        if names.count(n) > 1:
            out.append(("duplicate", f"{n} is defined {names.count(n)} times"))
    T = {t["name"]: t for t in ast["types"]}
    kind = lambda n: T[n]["kind"] if n in T else "scalar" if n in BUILTIN else None
    def dup(where, xs):
        for x in set(xs):
            if xs.count(x) > 1:
                out.append(("duplicate", f"{x} occurs {xs.count(x)} times in {where}"))
    def ref(where, t, kinds):
        k = kind(base(t))
        if k is None:
            out.append(("dangling", f"{where} refers to {base(t)}, which is not defined", base(t)))
        elif k not in kinds:
            out.append(("kind", f"{where} refers to {base(t)}, which is of kind {k}"))
    dd = [d["name"] for d in ast["directives"]]
    dup("the directive definitions", dd)
    def dirs(where, x):
        for n, a in x["dirs"]:
            if n not in dd and n not in BUILTIN_DIRECTIVES | (FEDERATED_DIRECTIVES if fed else set()):
                out.append(("directive", f"@{n} on {where} has no definition", n))
    IN, OUT = ("scalar", "enum", "input"), ("scalar", "enum", "object", "interface", "union")
    for t in ast["types"]:
        n, k = t["name"], t["kind"]
        dirs(n, t)
        items = t.get("fields") if k in ("object", "interface", "input") else t.get("values") if k == "enum" else t.get("members") if k == "union" else [1]
        if not items:
            out.append(("empty", f"{n} is empty"))
            continue
        if k == "union":
            dup(n, t["members"])
            for m in t["members"]:
                ref(n, m, ("object",))
        if k == "enum":
            dup(n, [v["name"] for v in t["values"]])
            for v in t["values"]:
                dirs(f"{n}.{v['name']}", v)
        if k in ("object", "interface"):
            dup(n + " implements", t["implements"])
            for i in t["implements"]:
                ref(n, i, ("interface",))
        if k in ("object", "interface", "input"):
            dup(n, [f["name"] for f in t["fields"]])
            for f in t["fields"]:
                w = f"{n}.{f['name']}"
                dirs(w, f)
                ref(w, f["type"], IN if k == "input" else OUT)
                dup(w, [a["name"] for a in f.get("args", [])])
                for a in f.get("args", []):
                    dirs(f"{w}({a['name']})", a)
                    ref(f"{w}({a['name']})", a["type"], IN)
    return out

def hidden_in_api(fed):
    """Types of the composed graph that the client-facing schema leaves out: inaccessible or without a visible member."""
    inacc = lambda x: any(n == "inaccessible" for n, _ in x["dirs"])
    out = set()
    vis = lambda xs: [x for x in xs if not inacc(x) and not x["name"].startswith("__")]
    for t in fed["types"]:
        xs = t.get("fields") if t["kind"] in ("object", "interface", "input") else t.get("values") if t["kind"] == "enum" else None
        if inacc(t) or (xs is not None and not vis(xs)):
            out.add(t["name"])
    objs = {t["name"] for t in fed["types"] if t["kind"] == "object"} - out
    out |= {t["name"] for t in fed["types"] if t["kind"] == "union" and not set(t["members"]) & objs}
    return out

def well_formed(run, req, o):
    if not o.get("ok"):
        return True
    good = True
    for which in ("fed", "api"):
        for p in ill_formed(o[which], which == "fed"):
            sig = None
            if which == "api" and p[0] == "dangling" and p[2] in hidden_in_api(o["fed"]):
                sig = "api-refers-to-hidden-type"
            run.violation(f"the {'federated' if which == 'fed' else 'client-facing'} schema is not well-formed: {p[1]}", {"request": req, "problem": p}, sig=sig)
            good &= sig is not None
    for which, roots in (("fed", o["fed"]), ("api", o["api"])):
        if "types" in roots:
            s = [x["roots"]["query"] for x in roots["schema"] if "query" in x["roots"]]
            q = s[0] if s else "Query"
            if q not in {t["name"] for t in roots["types"]} and not (which == "api" and q in hidden_in_api(o["fed"])):
                run.violation(f"the {which} schema has no query root", {"request": req})
                good = False
    return good

def strings(run, n, want=("fed", "api", "roundtrip"), alphabet="asntqbcu"):
    r = tlc.tlc("Text", constants={"MaxLen": n, "Alphabet": set(alphabet)}, invariants=["QuotedLossless", "BlockLossless"])
    run.model("Text", r)
    ss = [chars(c["s"]) for c in r["cases"]]
    reqs = [{"op": "compose", "subgraphs": [{"name": "a", "sdl": holder(s)}], "want": list(want),
             "extensions": [{"link_url": "https://grafbase.com/extensions/ext1/1.0.0", "url": "https://grafbase.com/extensions/ext1/1.0.0", "name": "ext1"}]} for s in ss]
    return list(zip(ss, reqs, harness.run(reqs)))

def unaltered(run, s, req, o):
    for which in ("fed", "api"):
        if "types" not in (o.get(which) or {}):
            run.violation(f"with the string {s!r}, the {which} schema does not parse: {str(o.get(which))[:300]}", {"request": req, "observed": o})
            return False
        try:
            got = holder_at(o[which], which == "fed")
        except Exception as e:
            run.violation(f"with the string {s!r}, the {which} schema lacks an element: {e!r}", {"request": req, "observed": o[which]})
            return False
        for w, g in got.items():
            e = holder_want(w, s)
            if w == "@key on P":
                m = re.fullmatch(r'\s*k\(\s*x:\s*(".*")\s*\)\s*', g or "", re.S)
                g, e = (m.group(1) if m else g), quote(s)
                if g != e:
                    g, e = unquote(g), s
            if e == "" and w.startswith("description") and g is None:
                continue
            if g != e:
                run.violation(f"{w} in the {which} schema: {e!r} was declared, {g!r} is rendered", {"request": req, "where": w})
                return False
    return True
def unquote(t):
    try:
        return json.loads(t)
    except Exception:
        return t

def value_of(v):
    k = v["k"]
    if k == "null":
        return None
    if k == "int":
        return int(v["v"])
    if k == "float":
        return {"float": float(v["v"])}
    if k == "bool":
        return v["v"] == "true"
    if k == "enum":
        return {"enum": v["v"]}
    if k == "string":
        return v["v"]
    if k == "list":
        return [value_of(x) for x in v["v"]]
    return {"object": {n: value_of(x) for n, x in zip(v["n"], v["v"])}}

def literal_holder(t):
    return LINKS + f'''directive @audit(note: J = {t}) on FIELD_DEFINITION
directive @extra(note: J) on FIELD_DEFINITION
scalar J
enum E {{ A B }}
input I {{ j: J = {t} e: E }}
type Query {{ a(x: J = {t}, i: I): J @audit(note: {t}) @extra(note: {t}) e: E }}
'''
def same_value(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == {"float"} == set(b):
        return a["float"] == b["float"]
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same_value, a, b))
    # 1e10 may be written as an integer
    if isinstance(a, dict) and set(a) == {"float"} and isinstance(b, int) and not isinstance(b, bool):
        return a["float"] == b
    return type(a) == type(b) and a == b
def literals(run, depth, width, limit=None):
    r = tlc.tlc("MC_Literals", constants={"Depth": depth, "Width": width}, invariants=["Nested"])
    run.model("MC_Literals", r)
    cs = sorted({c["t"]: c["v"] for c in r["cases"]}.items())
    if limit and len(cs) > limit:
        cs = random.Random(run.seed).sample(cs, limit)
    reqs = [{"op": "compose", "subgraphs": [{"name": "a", "sdl": literal_holder(t)}], "want": ["fed", "api", "roundtrip"],
             "extensions": [{"link_url": "https://grafbase.com/extensions/ext1/1.0.0", "url": "https://grafbase.com/extensions/ext1/1.0.0", "name": "ext1"}]} for t, _ in cs]
    for (t, v), q, o in zip(cs, reqs, harness.run(reqs)):
        run.validated(1, {"literal": t, "round_trip": (o.get("roundtrip") or {}).get("same")})
        if not o.get("ok"):
            run.violation(f"the value {t} is refused: {comp.errors(o) or o}", {"request": q, "observed": o})
            continue
        if not roundtrip(run, q, o, f"with the value {t}"):
            continue
        want = value_of(v)
        for which in ("fed", "api"):
            try:
                T = {x["name"]: x for x in o[which]["types"]}
                f = by_name(T["Query"]["fields"], "a")
                got = {"the argument's default": by_name(f["args"], "x")["default"][0], "the input field's default": by_name(T["I"]["fields"], "j")["default"][0]}
                if which == "fed":
                    got["the composed directive's argument"] = [m for n, m in f["dirs"] if n == "audit"][0]["note"]
                    got["the extension directive's argument"] = [m for n, m in f["dirs"] if n == "extension__directive"][0]["arguments"]["object"]["note"]
            except Exception as e:
                run.violation(f"with the value {t}: the {which} schema lacks it ({e!r})", {"request": q, "observed": o[which]})
                break
            bad = [(w, g) for w, g in got.items() if not same_value(want, g)]
            if bad:
                run.violation(f"{bad[0][0]} was declared as {t}, the {which} schema has {bad[0][1]!r}", {"request": q})
                break

def c14(run):
    q = run.quick
    for s, req, o in strings(run, 3 if q else 5, alphabet="asntqbcu" if q else "asntqbu") + strings(run, 7 if q else 9, alphabet="aq"):
        run.validated(1, {"string": s, "round_trip": (o.get("roundtrip") or {}).get("same")})
        if not o.get("ok"):
            run.violation(f"the string {s!r} is refused: {comp.errors(o) or o}", {"request": req, "observed": o})
        else:
            roundtrip(run, req, o, f"with the string {s!r}") and unaltered(run, s, req, o)
    literals(run, 2 if q else 3, 1)
    literals(run, 2, 2, limit=1500 if q else None)
    r = tlc.simulate_many("Mix", 1000 if q else 20000, 8, run.seed + 5, depth=126, constants={"Wild": 0})
    run.model("Mix", r)
    reqs = [render.request(c["sgs"], ("roundtrip",)) for c in r["cases"] if c["ok"]]
    for c, req, o in zip([c for c in r["cases"] if c["ok"]], reqs, harness.run(reqs)):
        run.validated(1)
        roundtrip(run, req, o, "a mixed system")

    for c, rq, o in access.cases(run, ("roundtrip",)):
        run.validated(1)
        if not o.get("ok"):
            run.violation(f"scopes and policies {c} do not compose: {comp.errors(o) or o}", {"request": rq, "observed": o})
        else:
            roundtrip(run, rq, o, f"scopes and policies {c}")
    for u, rq, o in with_features(run, 2 if q else 3, ("roundtrip",), limit=None if q else 6000):
        run.validated(1, {"features": u, "round_trip": (o.get("roundtrip") or {}).get("same")} if len(u) == 2 and run.traces % 50 == 0 else None)
        if not o.get("ok"):
            run.violation(f"the features {u} do not compose: {comp.errors(o) or o}", {"request": rq, "observed": o})
        else:
            roundtrip(run, rq, o, f"the features {u}")

def c15(run):
    q = run.quick
    for s, req, o in strings(run, 2 if q else 4, want=("fed", "api")) + strings(run, 8 if q else 10, want=("fed", "api"), alphabet="aq"):
        run.validated(1, {"string": s})
        if not o.get("ok"):
            run.violation(f"the string {s!r} is refused: {comp.errors(o) or o}", {"request": req, "observed": o})
        else:
            unaltered(run, s, req, o) and well_formed(run, req, o)
    r = tlc.simulate_many("Mix", 1000 if q else 30000, 8, run.seed + 3, depth=126, constants={"Wild": 1})
    run.model("Mix", r)
    fams = [("MC_C09", {"Marks": 2}, 900), ("MC_C04", {"N": 2, "Entity": False, "FieldSets": 4}, 700), ("MC_C12", {"N": 2, "Full": True}, 700), ("MC_C11", {"N": 2, "Full": False}, 500)]
    cases = r["cases"]
    for m, k, lim in fams:
        r = tlc.tlc(m, constants=k)
        run.model(m, r)
        cs = sorted(r["cases"], key=comp.sgs_key)
        cases = cases + (cs if not q or len(cs) <= lim else random.Random(run.seed).sample(cs, lim))
    reqs = [render.request(c["sgs"]) for c in cases]
    every = list(zip(reqs, harness.run(reqs))) + [(rq, o) for _, rq, o in with_features(run, 2 if q else 3, ("fed", "api"), limit=None if q else 6000)]
    for req, o in every:
        run.validated(1)
        if "panic" in o or "crash" in o:
            run.violation(f"composition crashes: {o.get('panic') or o.get('crash')}", {"request": req})
            continue
        well_formed(run, req, o)

def feature_sets(run, n):
    r = tlc.tlc("Features", constants={"Names": set(features.F), "Max": n}, invariants=["Bounded"])
    run.model("Features", r)
    sets = sorted({tuple(sorted(c["used"])) for c in r["cases"]} | {()})
    return [u for u in sets if features.composable(u)]
def with_features(run, n, want, limit=None):
    us = feature_sets(run, n)
    if limit and len(us) > limit:
        us = [u for u in us if len(u) < n] + random.Random(run.seed).sample([u for u in us if len(u) == n], limit)
    qs = [features.request(u, want) for u in us]
    return list(zip(us, qs, harness.run(qs)))

# ---------------------------------------------------------------- C16
def consistent(run, what, req, o):
    """A graph if and only if no error diagnostic."""
    if "panic" in o or "crash" in o:
        run.violation(f"{what}: composition crashes: {o.get('panic') or o.get('crash')}", {"request": req})
        return
    if "ingest_error" in o:
        run.violation(f"{what}: a subgraph is refused: {o['ingest_error']}", {"request": req})
        return
    errs = comp.errors(o)
    warns = [d["message"] for d in o["diagnostics"] if d["severity"] != "error"]
    run.note("with warnings" if warns else "without warnings")
    if o["ok"] and errs:
        run.violation(f"{what}: a graph although errors were reported: {errs[:2]}", {"request": req, "observed": o})
    if not o["ok"] and not errs:
        run.violation(f"{what}: no graph although no error was reported" + (f" (only warnings: {warns[:2]})" if warns else ""), {"request": req, "observed": o})

CHARS = {"dash": "-", "under": "_"}
WARNING = ('extend type Query { wP(id: ID!): WP! @lookup } type WP @key(fields: "id") { id: ID! }',)
# characters outside ASCII that are alphabetic, or numeric
WIDE = {"acute": "\u00e9", "three-quarters": "\u00be"}

def c16(run):
    q = run.quick
    # the names of the subgraphs
    cases = []
    for chars, n, count in (({"a", "A", "1", "-", "_", "acute", "three-quarters"}, 2 if q else 3, 2), ({"a", "A", "1"}, 2, 3)):
        r = tlc.tlc("MC_Names", constants={"Chars": chars, "NameLen": n, "Count": count}, invariants=["Symmetric"])
        run.model("MC_Names", r)
        cases += r["cases"]
    reqs = [{"op": "compose", "subgraphs": [{"name": "".join(WIDE.get(x, x) for x in n), "sdl": "type Query { f%d: Int }" % i} for i, n in enumerate(c["names"])], "want": ["fed"]} for c in cases]
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, {"names": c["names"], "accepted": o.get("ok")})
        consistent(run, f"subgraphs named {[x['name'] for x in rq['subgraphs']]}", rq, o)
        if "ok" in o and o["ok"] != c["ok"]:
            run.violation(f"subgraph names {[x['name'] for x in rq['subgraphs']]} are {'accepted' if o['ok'] else 'refused'}", {"request": rq, "observed": o})
        elif o.get("ok") and "types" not in o["fed"]:
            run.violation(f"the graph of subgraphs named {[x['name'] for x in rq['subgraphs']]} cannot be read", {"request": rq, "observed": o})
    # no subgraph at all
    rq = {"op": "compose", "subgraphs": [], "want": []}
    o = harness.run([rq])[0]
    consistent(run, "no subgraph", rq, o)
    if o.get("ok"):
        run.violation("a graph without any subgraph", {"request": rq})
    # kinds and query roots
    def each(c, rq, o):
        consistent(run, "kinds", rq, o)
    fam = lambda n, lim, name="X": comp.family(run, "MC_C16", {"N": n, "Name": name}, set(), ["KindInv"], limit=lim, each=each)
    fam(2, None)
    fam(2, 200, "join__Graph")          # a name of the federation itself
    fam(3, None if not q else 900)
    # everything else that can be wrong: the verdict and the diagnostics must agree
    comp.mixture(run, 1000 if q else 40000, set(), {"kind-mismatch", "no-root"}, wild=3, each=lambda c, rq, o: consistent(run, "a mixed system", rq, o))
    for m, k, lim in (("MC_C06", {"N": 2, "Full": True}, 500), ("MC_C08", {"Full": not q}, 700), ("MC_C07", {"N": 1, "Full": True}, 500)):
        r = tlc.tlc(m, constants=k)
        run.model(m, r)
        cs = sorted(r["cases"], key=comp.sgs_key)
        cs = random.Random(run.seed).sample(cs, lim) if q and len(cs) > lim else cs
        rqs = [render.request(c["sgs"], ()) for c in cs]
        for c, rq, o in zip(cs, rqs, harness.run(rqs)):
            run.validated(1)
            consistent(run, m, rq, o)
    # warnings never prevent a graph
    for u, rq, o in with_features(run, 2, (), limit=200 if q else None):
        run.validated(1)
        consistent(run, f"features {u}", rq, o)
        rq2 = json.loads(json.dumps(rq))
        rq2["subgraphs"][0]["sdl"] += "\n" + ("" if "composite-schemas" in rq2["subgraphs"][0]["sdl"] else features.LINKS["composite"]) + WARNING[0]
        if "interface-object" in u:
            continue
        o2 = harness.run([rq2])[0] if len(u) < 2 else None
        if o2:
            run.validated(1)
            consistent(run, f"features {u} with a warning", rq2, o2)
            if not o2.get("ok") or not [d for d in o2["diagnostics"] if d["severity"] == "warning"]:
                run.violation(f"features {u}: a nullable lookup must be a warning that leaves the graph: {o2.get('diagnostics')}", {"request": rq2, "observed": o2})

CHECKS = {"C14": c14, "C15": c15, "C16": c16}
NOTES = {"C14": ("Text.tla, MC_Literals.tla, Access.tla, Composition.tla, Mix.tla", "Every string up to 3 (thorough: 5) characters over 8 character classes at some 30 positions, every constant value up to depth 2 (3), every pair (thorough: triple) of 27 features, alternatives of scopes and policies, and random mixed systems."),
         "C15": ("Composition.tla, Text.tla, Mix.tla and the MC_C* families", "Well-formedness of both rendered schemas on every behaviour of the composition families replayed. References of the client-facing schema to types it hides are a known finding."),
         "C16": ("MC_C16.tla, MC_Names.tla, Mix.tla, Features.tla", "Every combination of kinds in 2 to 3 subgraphs, every pair and triple of names up to 2 characters, and the verdict of every replayed system against its diagnostics.")}
