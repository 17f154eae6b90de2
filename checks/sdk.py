"""S01–S04: what the SDK hands to extensions, and what it hands back to the host."""
import random
from vlib import harness, tlc

SITES = ["object", "field", "interface", "union", "enum", "scalar"]
ARGS = [{}, {"scopes": ["a", "é"]}, {"x": None}, {"n": -7, "l": [], "o": {"k": [1, {"b": True}]}}, {"s": "", "f": 1.5}, {"input": {"id": None, "ids": [None, 2]}}, {"big": 4294967296}]
NUMBERS = [0, 1, 2, 3, 7, 255, 256, 65535, 65536, 2**31, 2**32 - 2, 2**32 - 1]

def numbers(rnd, n):
    pool = NUMBERS + [rnd.randrange(2**32) for _ in range(n)]
    return rnd.sample(sorted(set(pool)), n)

# ------------------------------------------------------------------ authorization
def ranges(sizes, names):
    out, at = [], 0
    for n, name in zip(sizes, names):
        out.append({"name": name, "from": at, "to": at + n})
        at += n
    return out

def message(shared, name):
    # errors may share their message and differ in their extensions
    return "denied" if shared >> (int(name[1:]) % 3) & 1 else name

def decision_request(rnd, phase, c):
    n = sum(c["sizes"])
    ids = numbers(rnd, n)
    rq_seed = rnd.randrange(8)
    rq = {"op": "decisions", "shared": rq_seed, "phase": phase, "groups": ranges(c["sizes"], ["policy", "auth", "policy__v2"]), "steps": [dict(s, message=message(rq_seed, s["error"])) if "error" in s else s for s in c["steps"]]}
    if phase == "query":
        rq["elements"] = [{"id": ids[k], "args": rnd.choice(ARGS), "subgraph": rnd.choice(["", "a", "products"]),
                           "site": dict(zip(("kind", "name", "parent"), (lambda s: (s, f"N{k}", f"P{k}" if s == "field" else ""))(rnd.choice(SITES))))} for k in range(n)]
    else:
        it = ranges(c["items"], [""] * n)
        rq["elements"] = [{"id": ids[k], "from": it[k]["from"], "to": it[k]["to"]} for k in range(n)]
        rq["items"] = [rnd.choice(ARGS) for _ in range(sum(c["items"]))]
    return rq

def s01_expect(phase, c, rq):
    if phase == "query":
        flat = [dict(e, subgraph=e["subgraph"] or None) for e in rq["elements"]]
    else:
        flat = [{"id": e["id"], "n": e["to"] - e["from"], "items": rq["items"][e["from"]:e["to"]]} for e in rq["elements"]]
    gs = rq["groups"]
    err = lambda m: {"message": message(rq["shared"], m), "extensions": [["code", m]]}
    d = {"grant": "grant", "all": {"all": {"message": "all", "extensions": [["code", {"n": 1}]]}}}.get(rq.get("decision")) or {"some": [[x, err(m)] for x, m in c["denied"]]}
    return {"len": len(flat), "lens": [len(flat), len(gs)], "flat": flat,
            "grouped": [[g["name"], g["to"] - g["from"], flat[g["from"]:g["to"]]] for g in gs], "decided": d}

def unordered(o):
    d = o.get("decided")
    if isinstance(d, dict) and "some" in d:
        o = dict(o, decided={"some": sorted(d["some"], key=repr)})
    return o

def s01(run):
    q = run.quick
    rnd = random.Random(run.seed)
    for phase in ("query", "response"):
        bound = (3, 3) if q or phase == "response" else (3, 4)
        if phase == "response" and q:
            bound = (3, 2)
        r = tlc.tlc("Decisions", constants={"Phase": phase, "MaxElements": bound[0], "MaxSteps": bound[1]}, invariants=["Said", "Sound", "Exact", "Partition"], timeout=1800)
        run.model(f"Decisions {phase}", r)
        cases = sorted(r["cases"], key=repr)
        if q:
            cases = rnd.sample(cases, min(len(cases), 12000))
        reqs = [decision_request(rnd, phase, c) for c in cases]
        for c, rq in zip(cases, reqs):
            if not c["steps"]:
                rq["decision"] = rnd.choice(["grant", "all", None])
        for c, rq, o in zip(cases, reqs, harness.run(reqs)):
            run.validated(1, {"steps": c["steps"], "denied": c["denied"]} if run.traces % 3000 == 77 else None)
            e = s01_expect(phase, c, rq)
            ctx = {"request": rq, "observed": o, "expected": e}
            if "decided" not in o:
                run.violation(f"the SDK fails on the elements of a {phase}: {o.get('panic') or o}", ctx)
            elif unordered(o)["decided"] != unordered(e)["decided"]:
                run.violation(f"the decisions about a {phase} with groups {c['sizes']} are not those the extension made: {o['decided']} instead of {e['decided']}", ctx)
            elif o != e and unordered(o) != unordered(e):
                k = [k for k in e if o.get(k) != e[k]]
                run.violation(f"the extension does not see the elements of a {phase} as they are: {k}", ctx)

# ------------------------------------------------------------------ contracts
def s02(run):
    q = run.quick
    rnd = random.Random(run.seed)
    for n, m in ((2, 3), (3, 2)) if q else ((2, 4), (3, 3), (4, 2)):
        r = tlc.tlc("Contract", constants={"N": n, "MaxSteps": m}, invariants=["Said", "Overriding", "AboveDefault", "ByDefault"], timeout=1800)
        run.model(f"Contract {n} directives", r)
        cases = sorted(r["cases"], key=repr)
        cases = rnd.sample(cases, min(len(cases), 30000 if q else 400000))
        reqs = [{"op": "contract", "directives": n, "default": c["default"], "subgraphs": ["a", "b"], "steps": c["steps"]} for c in cases]
        for c, rq, o in zip(cases, reqs, harness.run(reqs)):
            run.validated(1, c if run.traces % 9000 == 5 else None)
            e = {"accessible": c["acc"], "default": c["default"], "hide": c["hide"], "subgraphs": [[s, f"http://{s}/moved"] for s in c["moved"]],
                 "seen": [[f"d{i}", {"i": i}] for i in range(n)]}
            if o != e:
                k = [k for k in e if o.get(k) != e[k]]
                run.violation(f"a contract does not carry what was decided ({', '.join(k)}): {[o.get(x) for x in k] if 'panic' not in o else o} instead of {[e[x] for x in k]}", {"request": rq, "observed": o, "expected": e})

# ------------------------------------------------------------------ schemas and fields
def recode(x, ids, args):
    """Identifiers and arguments as they are on the wire."""
    if isinstance(x, list):
        return [recode(v, ids, args) for v in x]
    if not isinstance(x, dict):
        return x
    return {("args" if k == "n" else k): (args[v] if k == "n" else ids[v] if k in ("id", "parent") and isinstance(v, int) else [ids[i] for i in v] if k in ("fields", "ifaces", "members") and v and isinstance(v[0], int)
            else [[ids[i], m] for i, m in v] if k in ("ifaces", "members") else recode(v, ids, args)) for k, v in x.items()}

def handed(run, rnd, seed, n):
    r = tlc.simulate_many("Handed", n * 6, 8, seed, depth=1501, constants={"Depth": 48}, invariants=["Distinct", "Closed"], timeout=1800)
    run.model("Handed", r)
    reqs, exps = [], []
    for c in r["cases"]:
        ids = [0] + numbers(rnd, 200)
        args = [rnd.choice(ARGS) for _ in range(7)]
        ts, fs = recode(c["types"], ids, args), recode(c["fields"], ids, args)
        rnd.shuffle(ts)
        rnd.shuffle(fs)
        roots = {k: ids[v] if v else None for k, v in c["roots"].items()}
        e = {"name": "sub", "types": sorted(recode(c["seen"]["types"], ids, args), key=lambda t: t["id"]), "fields": sorted(recode(c["seen"]["fields"], ids, args), key=lambda t: t["id"]),
             "found": True, "dirs": recode(c["dirs"], ids, args), "roots": {k: v or None for k, v in c["seen"]["roots"].items()}}
        reqs.append({"op": "handed", "schema": {"name": "sub", "types": ts, "fields": fs, "dirs": e["dirs"], "roots": roots}})
        exps.append(e)
    for rq, e, o in zip(reqs, exps, harness.run(reqs)):
        run.validated(1, {"types": [t["kind"] for t in e["types"]], "fields": len(e["fields"])} if run.traces % 900 == 5 else None)
        if o != e:
            k = [k for k in e if o.get(k) != e[k]]
            run.violation(f"the extension does not see the subgraph's schema as it is: {o.get('panic') or k}", {"request": rq, "observed": o, "expected": e})

def seen_tree(t, ids, vals):
    return {"alias": t["alias"], "def": ids[t["def"]], "args": vals[t["args"]] if t["args"] else {}, "typename": t["typename"], "empty": not t["fields"],
            "fields": [seen_tree(f, ids, vals) for f in t["fields"]]}

def selected(run, rnd, seed, n):
    r = tlc.simulate_many("Selected", n, 8, seed, depth=1501, constants={"MaxFields": 14}, invariants=["Once", "Under"], timeout=1800)
    run.model("Selected", r)
    reqs, exps = [], []
    for c in r["cases"]:
        ids, aids = numbers(rnd, 9), [None] + rnd.sample([0, 1, 2, 9, 300, 65534, 65535], 4)
        vals = [None] + [dict(rnd.choice(ARGS), which=k) for k in range(1, 5)]
        vs = [{"id": aids[k], "value": vals[k]} for k in range(1, 5)]
        rnd.shuffle(vs)
        d = rnd.choice(ARGS)
        reqs.append({"op": "field", "subgraph": rnd.choice(["", "products", "é"]), "directive": rnd.choice(["rest", "extension__join"]), "dirargs": d, "root": c["root"] - 1, "vars": vs,
                     "fields": [{"alias": f["alias"], "def": ids[f["def"]], "args": aids[f["args"]], "set": {"typename": f["set"]["typename"], "from": f["set"]["from"], "to": f["set"]["to"]} if f["has"] else None} for f in c["fs"]]})
        t = seen_tree(c["tree"], ids, vals)
        e = {"subgraph": reqs[-1]["subgraph"], "directive": reqs[-1]["directive"], "dirargs": d, "root": t, "def": t["def"], "args": t["args"], "typename": t["typename"], "n": len(t["fields"]), "ids": True, "seeded": d}
        exps.append({"before": e, "after": e})
    for rq, e, o in zip(reqs, exps, harness.run(reqs)):
        run.validated(1, rq if run.traces % 5000 == 5 else None)
        if o != e:
            when = [k for k in e if o.get(k) != e[k]]
            run.violation(f"a resolver extension does not see the field as it is ({', '.join(when)} its state is stored): {o.get('panic') or ''}", {"request": rq, "observed": o, "expected": e})

def s03(run):
    rnd = random.Random(run.seed)
    q = run.quick
    for b in range(1 if q else 8):
        handed(run, rnd, run.seed + 17 * b, 3000 if q else 6000)
        selected(run, rnd, run.seed + 17 * b, 8000 if q else 20000)

# ------------------------------------------------------------------ jq selections
def jvalue(v):
    return {"n": lambda: None, "i": lambda: v[1], "a": lambda: [jvalue(x) for x in v[1]], "o": lambda: {k: jvalue(x) for k, x in zip(v[1], v[2])}}[v[0]]()

def jtext(f, s):
    sp = " " if s else ""
    return {"id": lambda: ".", "key": lambda: "." + f[1], "at": lambda: f".[{sp}{f[1]}{sp}]", "all": lambda: ".[]", "num": lambda: str(f[1]),
            "pipe": lambda: f"({jtext(f[1], s)}{sp}|{sp}{jtext(f[2], s)})", "comma": lambda: f"({jtext(f[1], s)}{sp},{sp}{jtext(f[2], s)})"}[f[0]]() + sp

BAD = [".a |", "{", "nosuch", ".[", ".a | nosuch(.)", "$x"]

def s04(run):
    rnd = random.Random(run.seed)
    for b in range(1 if run.quick else 10):
        r = tlc.simulate_many("Jq", 40000, 8, run.seed + 5 * b, depth=1501, invariants=["Again"], timeout=1800)
        run.model("Jq", r)
        reqs, exps = [], []
        for c in r["cases"]:
            bad = rnd.choice(BAD)
            reqs.append({"op": "jq", "steps": [{"filter": bad if s["filter"][0] == "bad" else jtext(s["filter"], s["spelling"]), "data": jvalue(s["data"]), "known": s["known"]} for s in c["steps"]]})
            exps.append(["refused" if s["out"] == ["refused"] else ["error" if x[0] == "!" else {"ok": jvalue(x)} for x in s["out"]] for s in c["steps"]])
        for rq, e, o in zip(reqs, exps, harness.run(reqs)):
            run.validated(1, rq["steps"][:3] if run.traces % 900 == 5 else None)
            if not isinstance(o, list):
                run.violation(f"selecting fails: {o}", {"request": rq, "observed": o, "expected": e})
                continue
            got = ["refused" if "refused" in x else x["results"] for x in o]
            for i, (x, y) in enumerate(zip(got, e)):
                if x != y:
                    before = [s["filter"] for s in rq["steps"][:i]]
                    run.violation(f"the filter {rq['steps'][i]['filter']!r} over {rq['steps'][i]['data']} selects {x} instead of {y}, after {before}", {"request": rq, "observed": o, "expected": e})
                    break
                if x != "refused" and o[i]["retained"]:
                    run.violation(f"selecting with the filter {rq['steps'][i]['filter']!r} again keeps {o[i]['retained']} bytes, as if it were compiled again", {"request": rq, "observed": o, "expected": e})
                    break

CHECKS = {"S01": s01, "S02": s02, "S03": s03, "S04": s04}
NOTES = {
    "S01": ("Decisions.tla", "TLC enumerates all groupings of up to three elements (and up to two items each in a response) and all sequences of up to three (query) or two (response) steps of an extension, thorough four and three; "
            "quick replays up to 12000 per phase. Observed: the decisions as the host receives them, and the elements as the extension sees them, from the list and from the groups. The WASM boundary itself is not crossed: the SDK runs natively, "
            "reached through the types it shares with the host (hook under cfg(verification)); headers and contexts, which live in the host, are not covered."),
    "S02": ("Contract.tla", "TLC enumerates all sequences of up to three decisions over two directives (two over three), with the documented meaning of the encoding as invariants; every state is replayed. Which elements the gateway hides by it is decided by the engine, which does not build here."),
    "S03": ("Handed.tla, Selected.tla", "Simulated: schemas of up to about thirty definitions with identifiers over the whole range of u32, and fields with up to fourteen fields under them, before and after their state was stored. Every accessor of the schema is observed."),
    "S04": ("Jq.tla", "Simulated histories of seven requests over a pool of four filters (identity, keys, indexes, all elements, numbers, pipes, commas, and filters that do not compile), in two spellings. That a filter is compiled once is observed as the memory a selection with a known filter leaves allocated: none. The rest of the jq language is the business of the library."),
}
