"""Required scopes and policies with several alternatives (for C10 and C14)."""
import json, random
from vlib import comp, harness, render, tlc

def sdl(rnd, c, sg):
    at = {}
    for u in c["uses"]:
        if u["sg"] == sg:
            name = "scopes" if u["kind"] == "requiresScopes" else "policies"
            at.setdefault(u["site"], []).append(f" @{u['kind']}({name}: [" + ", ".join("[" + ", ".join(json.dumps(s) for s in a) + "]" for a in u["alts"]) + "])")
    d = lambda s: "".join(at.get(s, []))
    parts = [f"type Query {{ q{sg}: O }}", f"type O{d('object')} {{ f: Int @shareable{d('field')} g: S @shareable h: E @shareable }}",
             f"interface I{d('interface')} {{ i: Int{d('interface-field')} }}", f"enum E{d('enum')} {{ A }}", f"scalar S{d('scalar')}"]
    rnd.shuffle(parts)
    return render.FED2 + "\n" + "\n".join(parts) + "\n"

def cases(run, want):
    q = run.quick
    r = tlc.tlc("Access", constants={"MaxUses": 1, "Random": False}, invariants=["Union"])
    run.model("Access", r)
    cs = sorted(r["cases"], key=lambda c: json.dumps(c["uses"], sort_keys=True))
    r = tlc.simulate_many("Access", 800 if q else 30000, 8, run.seed, depth=101, constants={"MaxUses": 4, "Random": True}, invariants=["Union"])
    run.model("Access", r)
    cs += r["cases"]
    rnd = random.Random(run.seed)
    reqs = [{"op": "compose", "subgraphs": [{"name": n, "sdl": sdl(rnd, c, k)} for k, n in ((1, "a"), (2, "b"))], "want": list(want)} for c in cs]
    return [(c["uses"] if "fed" not in want else c, rq, o) for c, rq, o in zip(cs, reqs, harness.run(reqs))]

def at(fed, site):
    T = {t["name"]: t for t in fed["types"]}
    f = lambda t, n: next(x for x in T[t]["fields"] if x["name"] == n)["dirs"]
    return {"field": lambda: f("O", "f"), "object": lambda: T["O"]["dirs"], "interface": lambda: T["I"]["dirs"], "interface-field": lambda: f("I", "i"),
            "enum": lambda: T["E"]["dirs"], "scalar": lambda: T["S"]["dirs"]}[site]()

def merged(run):
    for c, rq, o in cases(run, ("fed",)):
        run.validated(1)
        ctx = {"request": rq, "observed": o}
        if not o.get("ok"):
            run.violation(f"scopes and policies {c['uses']} do not compose: {comp.errors(o) or o}", ctx)
            continue
        for site in ("field", "object", "interface", "interface-field", "enum", "scalar"):
            for kind, arg in (("requiresScopes", "scopes"), ("policy", "policies")):
                want = {tuple(a) for w in c["want"] if w["kind"] == kind and w["site"] == site for a in w["alts"]}
                ds = [a[arg] for n, a in at(o["fed"], site) if n == kind]
                got = [tuple(a) for d in ds for a in d]
                if set(got) != want or len(got) != len(set(got)):
                    run.violation(f"{kind} of the {site}: {sorted(got)} instead of {sorted(want)}", ctx)
