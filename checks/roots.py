"""C22: the root operation types of the subgraphs, whatever their names."""
import json, random
from vlib import comp, harness, render, tlc

OPS = ["query", "mutation", "subscription"]

def sdl(rnd, g, k):
    s, x = g["s"], "abc"[k]
    T = "T" + x
    roots = [(o, n) for o, n in zip(OPS, s["names"]) if n]
    use = list(roots)
    rnd.shuffle(use)
    ops = lambda l: "{ " + " ".join(f"{o}: {n}" for o, n in l) + " }"
    if s["how"] == "default":
        heads = []
    elif s["how"] == "definition":
        heads = ["schema " + ops(use)]
    elif s["how"] == "extension":      # lists only what is not there by its name
        heads = ["extend schema " + ops([(o, n) for o, n in use if n != o.capitalize()])]
    elif s["how"] == "extensions":
        heads = ["extend schema " + ops([u]) for u in use]
    else:
        heads = ["schema " + ops(use[:1])] + (["extend schema " + ops(use[1:])])
    entity = "entity" in s["refs"]
    v2 = rnd.random() < 0.5
    link = [rnd.choice([render.FED2, render.FED2.replace("extend schema", "extend schema", 1)])] if v2 else []
    wrap = lambda f, t: {0: t, 1: t + "!", 2: f"[{t}!]"}[(len(f) + len(t)) % 3] if f.split("_")[0] in ("back", "cross", "entity", "stray") else t
    types = {}
    for t, f, ft in g["fields"]:
        types.setdefault(t, []).append((f, ft))
    parts = []
    for t, fs in types.items():
        fs = sorted(fs)
        rnd.shuffle(fs)
        kind = "interface" if t == "I" + x or (t == s["stray"][1] and s["stray"][0] == "interface") else "type"
        at = " @key(fields: \"id\")" if t == "E" else ""
        imp = f" implements I{x}" if t == g["first"] and "implements" in s["refs"] else ""
        line = lambda f, ft: f"{f}: {wrap(f, ft)}" if t != "E" or f != "id" else "id: ID!"
        ext = [f for f in fs if f[0].startswith("ext_")]
        fs = [f for f in fs if f not in ext]
        parts.append(f"{kind} {t}{imp}{at} {{ " + " ".join(line(*f) for f in fs) + " }")
        if ext:
            parts.append(f"extend {kind} {t} {{ " + " ".join(line(*f) for f in ext) + " }")
    if "union" in s["refs"]:
        parts.append(f"union U{x} = " + " | ".join(rnd.sample([g["first"], T], 2)))
    n = s["stray"][1]
    parts += {"enum": [f"enum {n} {{ A B }}"], "input": [f"input {n} {{ a: Int }}"], "scalar": [f"scalar {n}"], "union": [f"union {n} = {T}"]}.get(s["stray"][0], [])
    rnd.shuffle(parts)
    # the schema definition comes first, or last
    return "\n".join(link + heads + parts if rnd.random() < 0.7 else parts + link + heads) + "\n", wrap

def c22(run):
    q = run.quick
    inv = ["NamesDoNotMatter", "NoTrace"]
    r = tlc.tlc("Roots", constants={"N": 2, "Random": False} if not q else {"N": 1, "Random": False}, invariants=inv)
    run.model("Roots", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps([g["s"] for g in c["sgs"]], sort_keys=True))
    one = [c for c in cases if len(c["sgs"]) == 1]
    cases = one + random.Random(run.seed).sample([c for c in cases if len(c["sgs"]) > 1], 0 if q else 60000)
    if q:
        cases = random.Random(run.seed).sample(cases, min(len(cases), 5000))
    r = tlc.simulate_many("Roots", 8000 if q else 60000, 8, run.seed, depth=101, constants={"N": 3, "Random": True}, invariants=inv)
    run.model("Roots", r)
    cases += r["cases"]
    rnd = random.Random(run.seed)
    reqs, wraps = [], []
    for c in cases:
        texts = [sdl(rnd, g, k) for k, g in enumerate(c["sgs"])]
        reqs.append({"op": "compose", "subgraphs": [{"name": "abc"[k], "sdl": t[0]} for k, t in enumerate(texts)], "want": ["fed", "api", "roundtrip"]})
        wraps.append(texts[0][1])
    for c, rq, w, o in zip(cases, reqs, wraps, harness.run(reqs)):
        names = [(g["s"]["how"], g["s"]["names"], g["s"]["stray"]) for g in c["sgs"]]
        run.validated(1, {"subgraphs": names, "refused": c["refused"]} if run.traces % 1500 == 7 else None)
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k not in ("fed", "api")}, "expected": {k: c[k] for k in ("refused", "fields", "members", "implements")}}
        judge(run, c, w, o, ctx, names)
    # the comparison notices a field under another root
    c = next(c for c in cases if not c["refused"])
    k = cases.index(c)
    bad = dict(c, fields=[[f[0], f[1], "Other", f[3]] if i == 0 else f for i, f in enumerate(c["fields"])])
    if not problem(bad, wraps[k], harness.run([reqs[k]])[0]):
        run.violation("a corrupted expectation is not noticed", {"case": bad})
    run.note("self-test: corrupted expectation detected")

def judge(run, c, w, o, ctx, names):
    p = problem(c, w, o)
    if p:
        run.violation(f"root types {names}: {p}", ctx)

def problem(c, w, o):
    if "panic" in o or "crash" in o or "ingest_error" in o:
        return f"composition crashes: {o}"
    if c["refused"]:
        if o["ok"]:
            return "no subgraph has a root, and that composes" if c["none"] else "a type with the name of a root that is none is composed"
        m = " ".join(comp.errors(o))
        if c["none"] and "None of the subgraphs" not in m:
            return f"refused for the wrong reason: {m}"
        if not c["none"] and "not valid in a federation context" not in m:
            return f"refused for the wrong reason: {m}"
        return None
    if not o["ok"]:
        return f"does not compose: {comp.errors(o)[:2]}"
    for which in ("fed", "api"):
        if "types" not in o[which]:
            return f"the {which} schema cannot be read: {o[which]}"
        mine = lambda n: not n.startswith(("join__", "link__", "extension__", "core__")) and n not in ("String", "Int", "ID", "Boolean", "Float")
        T = {t["name"]: t for t in o[which]["types"] if mine(t["name"])}
        got = {(n, f["name"], f["type"]) for n, t in T.items() for f in t.get("fields") or []}
        want = {(t, f, "ID!" if (t, f) == ("E", "id") else wrapped(w, c, t, f, ft)) for t, f, ft, _ in c["fields"]}
        if got != want:
            return f"the {which} schema has {sorted(got - want)} instead of {sorted(want - got)}"
        mem = {(n, m) for n, t in T.items() for m in t.get("members") or []}
        if mem != {tuple(m) for m in c["members"]}:
            return f"the {which} schema has the members {sorted(mem)} instead of {sorted(c['members'])}"
        imp = {(n, i) for n, t in T.items() for i in t.get("implements") or []}
        if which == "fed" and imp != {tuple(m) for m in c["implements"]}:   # (for the client-facing schema, see C11)
            return f"in the {which} schema, these implement interfaces: {sorted(imp)} instead of {sorted(c['implements'])}"
        roots = {t for t, _, _, _ in c["fields"]} & {"Query", "Mutation", "Subscription"}
        named = {k: v for s in o[which]["schema"] for k, v in s["roots"].items()} or {r.lower(): r for r in roots}
        if named != {r.lower(): r for r in roots}:
            return f"the {which} schema definition names {named}, the roots are {sorted(roots)}"
    T = {t["name"]: t for t in o["fed"]["types"]}
    for t, f, ft, own in c["fields"]:
        if t in ("Query", "Mutation", "Subscription"):
            d = next(x for x in T[t]["fields"] if x["name"] == f)
            g = sorted(a["graph"]["enum"].lower() for n, a in d["dirs"] if n == "join__field" and "graph" in a)
            if g != sorted(own):
                return f"{t}.{f} is resolved in {g} instead of {sorted(own)}"
    if not (o.get("roundtrip") or {}).get("same"):
        return f"the composed graph is another one when it is read back: {o.get('roundtrip')}"
    return None

def wrapped(w, c, t, f, ft):
    # the wrapping was chosen by the name the subgraph uses
    for k, g in enumerate(c["sgs"]):
        if f.endswith("_" + "abc"[k]):
            for t0, f0, ft0 in g["fields"]:
                if f0 == f and canon(g, t0) == t and canon(g, ft0) == ft:
                    return w(f, ft0).replace(ft0, ft)
    return ft

def canon(g, n):
    return next((o.capitalize() for o, m in zip(OPS, g["s"]["names"]) if m and m == n), n)

CHECKS = {"C22": c22}
NOTES = {"C22": ("Roots.tla", "TLC enumerates subgraphs by how they declare their roots (by default names, in a schema definition, in extensions, or both), the names of the roots, another type that has a root's name, "
         "and what refers to the roots (fields of roots, types, interfaces and entities, unions, implementations, extensions); random pairs and triples of these in addition. Observed: types, fields, members and implementations in the "
         "federated and the client-facing SDL, where root fields are resolved, refusals, and the round trip. Not covered: one type as the root of two operations, and roots that a schema definition leaves out.")}
