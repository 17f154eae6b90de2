"""The checks of the composition properties C01 to C18."""
import json, random, re
from vlib import comp, harness, project, render, tlc
from checks import access

def c01(run):
    q = run.quick
    inv = ["MergeInv"]
    comp.family(run, "MC_C01", {"N": 2, "Depth": 2}, {"outtype"}, inv)
    comp.family(run, "MC_C01", {"N": 3, "Depth": 1 if q else 2}, {"outtype"}, inv, limit=None if q else 20000)
    if not q:
        comp.family(run, "MC_C01", {"N": 2, "Depth": 3}, {"outtype"}, inv)
        comp.family(run, "MC_C01", {"N": 4, "Depth": 1}, {"outtype"}, inv, limit=20000)
    comp.mixture(run, 1200 if q else 20000, {"outtype"}, {"field-type"})


def c02(run):
    q, inv, asp = run.quick, ["MergeInv"], {"argset", "argtype", "argdefault", "infieldset", "intype", "indefault"}
    comp.family(run, "MC_C02", {"N": 2, "Full": True}, asp, inv)
    comp.family(run, "MC_C02", {"N": 3, "Full": not q}, asp, inv, limit=3000 if q else 40000)
    comp.mixture(run, 1200 if q else 20000, asp, {"arg-default", "arg-required-dropped", "arg-type", "input-required-dropped", "input-type", "input-default"})

def c03(run):
    q, inv, asp = run.quick, ["MergeInv"], {"values"}
    comp.family(run, "MC_C03", {"N": 2, "Values": 2, "Full": True}, asp, inv)
    comp.family(run, "MC_C03", {"N": 2, "Values": 3, "Full": not q}, asp, inv, limit=1000 if q else None)
    comp.family(run, "MC_C03", {"N": 3, "Values": 2, "Full": not q}, asp, inv, limit=2500 if q else 40000)
    comp.mixture(run, 1200 if q else 20000, asp, {"enum-empty", "enum-mismatch"})

def c04(run):
    q, inv, asp = run.quick, ["OwnershipInv"], {"names", "kinds", "join", "impl", "members", "fieldset", "owners", "inowners"}
    for e in (False, True):
        comp.family(run, "MC_C04", {"N": 2, "Entity": e, "FieldSets": 4 if q else 8}, asp, inv, limit=2500 if q else None)
        if not q:
            comp.family(run, "MC_C04", {"N": 3, "Entity": e, "FieldSets": 3}, asp, inv, limit=30000, timeout=3000)
    comp.mixture(run, 1600 if q else 20000, asp, set())

def c05(run):
    q, inv, asp = run.quick, ["SharingInv"], {"ownset"}
    comp.family(run, "MC_C05", {"N": 2, "Full": True}, asp, inv)
    comp.family(run, "MC_C05", {"N": 3, "Full": not q}, asp, inv, limit=None if q else 20000)
    if not q:
        comp.family(run, "MC_C05", {"N": 4, "Full": False}, asp, inv, limit=15000)
    comp.mixture(run, 1200 if q else 20000, asp, {"sharing"})

def c06(run):
    q, inv, asp = run.quick, ["OverrideInv"], {"ownoverride"}
    comp.family(run, "MC_C06", {"N": 2, "Full": True}, asp, inv)
    comp.family(run, "MC_C06", {"N": 3, "Full": not q}, asp, inv, limit=3000 if q else 12000)
    if not q:
        comp.family(run, "MC_C06", {"N": 4, "Full": False}, asp, inv, limit=15000)
    comp.mixture(run, 1200 if q else 20000, asp, {"override-self", "override-collision", "override-cycle"})

def c07(run):
    q, inv, asp = run.quick, ["KeyInv"], {"join", "names"}
    comp.family(run, "MC_C07", {"N": 2, "Full": not q}, asp, inv, limit=3500 if q else 40000)
    if q:
        comp.family(run, "MC_C07", {"N": 1, "Full": True}, asp, inv)
    comp.mixture(run, 1200 if q else 20000, asp, {"key-selection"})

ARG_TYPES = "enum E { RED GREEN }\ninput In { a: Int b: Int! c: In d: Int! = 4 e: [E!] }\nscalar Any\n"
ARG_DEFAULTS = {"Int": "5", "Float": "5", "String": '"x"', "ID": '"x"', "Boolean": "false", "E": "GREEN", "In": "{b: 1}", "Any": "5"}

def arguments_request(c):
    t, site = c["ty"], c["site"]
    deep = len(t["w"]) - t["w"].count("N")
    arg = f"n: {render.ty(t)}" + (" = " + "[" * deep + ARG_DEFAULTS[t["b"]] + "]" * deep if t["def"] else "")
    sel = "fa" + (f'({site["arg"]}: {c["v"][0]})' if c["v"] else "")
    other = site["other"] != "absent"
    ext = " @external" if other and site["dir"] != "key" else ""
    key = f" @key(fields: {render.gql(sel)})" if site["dir"] == "key" else ""
    b = (f"type Query {{ q: P{' @provides(fields: ' + render.gql(sel) + ')' if site['dir'] == 'provides' else ''} }}\n"
         f'type P @key(fields: "id"){key} {{ id: ID! fa({arg}): Int{ext} w: Int{" @requires(fields: " + render.gql(sel) + ")" if site["dir"] == "requires" else ""} }}\n')
    fa = {"absent": "", "same": f"fa({arg}): Int", "noarg": "fa: Int"}[site["other"]]
    a = f'type Query {{ q2: P }}\ntype P @key(fields: "id") {{ id: ID! {fa} }}\n'
    return {"op": "compose", "subgraphs": [{"name": "b", "sdl": render.FED2 + "\n" + b + ARG_TYPES}, {"name": "a", "sdl": render.FED2 + "\n" + a + ARG_TYPES}], "want": ["fed"]}

def squeeze(s):
    return re.sub(r"\s*([\[\]{}():])\s*", r"\1", re.sub(r"[\s,]+", " ", s)).strip()

def c08_arguments(run, depth, full, limit):
    r = tlc.tlc("Arguments", constants={"Depth": depth, "Full": full}, invariants=["Nullability", "Widening", "SingleItem", "DefaultsMakeOptional", "Emit"])
    run.model("Arguments", r)
    cases = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
    rnd = random.Random(run.seed)
    yes = [c for c in cases if c["out"] == "yes"]
    cases = rnd.sample(yes, min(len(yes), limit // 2)) + rnd.sample(cases, min(len(cases), limit // 2))
    reqs = [arguments_request(c) for c in cases]
    for c, rq, o in zip(cases, reqs, harness.run(reqs)):
        t, site = c["ty"], c["site"]
        sel = "fa" + (f'({site["arg"]}: {c["v"][0]})' if c["v"] else "")
        run.validated(1, {"argument": rq["subgraphs"][0]["sdl"].splitlines()[2], "outcome": c["out"]} if run.traces % 1500 == 7 else None)
        what = f"@{site['dir']} selecting {sel}, where n: {render.ty(t)}{' with a default' if t['def'] else ''} and another subgraph {dict(absent='lacks the field', same='has the same', noarg='has the field without the argument')[site['other']]}"
        ctx = {"request": rq, "expected": c["out"], "observed": {k: v for k, v in o.items() if k != "fed"}}
        if "ok" not in o:
            run.violation(f"{what}: composition crashes: {o.get('panic') or o.get('crash') or o}", ctx)
        elif o["ok"] != (c["out"] == "yes"):
            run.violation(f"{what}: composition {'accepts' if o['ok'] else 'refuses'} it" + ("" if o["ok"] else f": {comp.errors(o)[:1]}"), ctx)
        elif o["ok"]:
            types = {x["name"]: x for x in o["fed"]["types"]}
            where = types["P"]["dirs"] if site["dir"] == "key" else next(f for t, n in (("P", "w"), ("Query", "q")) for f in types[t]["fields"] if f["name"] == n and (n == "w") == (site["dir"] == "requires"))["dirs"]
            got = {squeeze(a[site["dir"]]) for a in project.dget(where, "join__type" if site["dir"] == "key" else "join__field") if a.get(site["dir"])} - {"id"}
            if got != {squeeze(sel)}:
                run.violation(f"{what}: the composed graph has {sorted(got)}", dict(ctx, directives=where))

def c08(run):
    q, inv, asp = run.quick, ["SelInv"], {"ownsel"}
    comp.family(run, "MC_C08", {"Full": not q}, asp, inv, limit=3500 if q else 40000)
    c08_arguments(run, 1, not q, 6000 if q else 60000)
    if not q:
        c08_arguments(run, 2, False, 60000)
    comp.mixture(run, 1200 if q else 20000, asp, {"requires-selection", "provides-selection", "external-requires", "external-provides"})

def c09(run):
    q, inv, asp = run.quick, ["InaccessibleInv"], {"dirs", "names", "fieldset", "valueset", "argset", "infieldset"}
    comp.family(run, "MC_C09", {"Marks": 2 if q else 3}, asp, inv, api=True)
    comp.mixture(run, 1200 if q else 20000, asp, {"field-inaccessible-type", "arg-inaccessible-type", "query-inaccessible"}, api=True)

def c10(run):
    q, inv, asp = run.quick, ["DirInv"], {"dirs"}
    comp.family(run, "MC_C10", {"N": 2, "Pairs": False}, asp, inv)
    if not q:
        comp.family(run, "MC_C10", {"N": 3, "Pairs": False}, asp, inv, limit=40000, timeout=3000)
    comp.mixture(run, 1200 if q else 20000, asp, set())
    access.merged(run)

def c11(run):
    q, inv, asp = run.quick, ["ImplInv"], {"impl", "fieldset", "names"}
    def shown(c, rq, o):
        """What the client-facing schema says of it."""
        if not o.get("ok") or not c["ok"] or "types" not in o["api"]:
            return
        got = {t["name"]: sorted(t.get("implements") or []) for t in o["api"]["types"]}
        for x in c["api"]:
            e, g = sorted(x["impl"]), got.get(x["n"])
            if g is not None and e != g:
                run.violation(f"the client-facing schema says that {x['n']} implements {g}, expected {e}", {"request": rq, "observed": o["api"]}, "api-without-implementations" if g == [] else None)
    comp.family(run, "MC_C11", {"N": 2, "Full": not q}, asp, inv, each=shown)
    comp.family(run, "MC_C11", {"N": 3, "Full": False}, asp, inv, limit=2000 if q else 40000, timeout=2000, each=shown) if not q else None
    comp.mixture(run, 1200 if q else 20000, asp, {"interface-field-missing"}, each=shown)

def c12(run):
    q, inv, asp = run.quick, ["EntityInterfaceInv"], {"names", "kinds", "join", "fieldset", "owners", "impl"}
    comp.family(run, "MC_C12", {"N": 2, "Full": True}, asp, inv)
    comp.family(run, "MC_C12", {"N": 3, "Full": not q}, asp, inv, limit=2500 if q else 40000, timeout=2000)

def canon(o):
    """What must not depend on the order of subgraphs and definitions, of one observed composition."""
    if not o.get("ok"):
        return None
    if "types" not in (o.get("fed") or {}):
        return o
    def strip(p):
        p = dict(p)
        p.pop("marked", None)
        for k in ("dirs",):
            if k in p:
                p[k] = dict(p[k], reason=None)
        for k in ("fields", "vals", "args"):
            if k in p:
                p[k] = {n: strip(x) for n, x in p[k].items()}
        return p
    return {"types": {n: strip(p) for n, p in project.observed(o["fed"]).items()}, "api": project.observed_api(o["api"])}

def order_independent(run, groups):
    """groups: lists of (request, observation) of the same system in different orders."""
    for g in groups:
        ref = canon(g[0][1])
        for q, o in g[1:]:
            got = canon(o)
            if "panic" in o or "crash" in o:
                continue # reported by the replay
            if (got is None) != (ref is None):
                run.violation(f"the same subgraphs compose in one order and are refused in another: {comp.errors(o) + comp.errors(g[0][1])}",
                              {"one": g[0][0], "other": q, "observed": [g[0][1], o]})
                return
            if got != ref:
                w = next((n for n in sorted(set(ref["types"]) | set(got["types"])) if ref["types"].get(n) != got["types"].get(n)), "client-facing schema")
                a, b = ref["types"].get(w), got["types"].get(w)
                sig = None
                if a and b and a["k"] == "interface" and {**a, "join": 0, "joinset": 0} == {**b, "join": 0, "joinset": 0} and \
                   all(ref["types"][n] == got["types"][n] for n in ref["types"] if n != w and n in got["types"]) and ref["api"] == got["api"] and set(a["join"]) ^ set(b["join"]):
                    sig = "entity-interface-drops-definitions"
                run.violation(f"the composition of {w} depends on the order of subgraphs or definitions: {str(a)[:600]} / {str(b)[:600]}",
                              {"one": g[0][0], "other": q}, sig=sig)
            run.note("reordered compositions compared")

def reorder(rnd, types):
    """The same definitions in another order, some of them split in a definition and an extension."""
    out, seen = [], set()
    mix = lambda l: rnd.sample(l, len(l))
    for t in types:
        t = dict(t, fields=mix(t["fields"]), vals=mix(t["vals"]), members=mix(t["members"]), ext=t["n"] in seen)
        seen.add(t["n"])
        k = "fields" if t["k"] in ("object", "interface", "input") else "vals" if t["k"] == "enum" else "members"
        if len(t[k]) > 1 and rnd.random() < 0.3:
            i = rnd.randrange(1, len(t[k]))
            empty = dict(t, dirs=[], impl=[], fields=[], vals=[], members=[])
            out.append(dict(empty, **{k: t[k][:i]}, dirs=t["dirs"], impl=t["impl"]))
            if rnd.random() < 0.5:
                out[-1].update(dirs=[])
                out.append(dict(empty, **{k: t[k][i:]}, dirs=t["dirs"], ext=True))
            else:
                out.append(dict(empty, **{k: t[k][i:]}, ext=True))
        else:
            out.append(t)
    rnd.shuffle(out)
    return out

def c13(run):
    import random
    q, inv = run.quick, ["OrderInv"]
    def fam(n, lo, hi, limit):
        r = tlc.tlc("MC_C13", constants={"N": n, "From": lo, "To": hi}, invariants=inv, timeout=2400)
        run.model("MC_C13", r)
        groups = {}
        for c in r["cases"]:
            groups.setdefault(c["pick"][0], []).append(c)
        ks = sorted(groups)
        if limit and len(ks) > limit:
            ks = sorted(random.Random(run.seed).sample(ks, limit))
        cases = [c for k in ks for c in sorted(groups[k], key=lambda c: c["pick"])]
        res = comp.replay(run, cases, {"names", "kinds", "join", "fieldset", "outtype", "owners", "argset", "argtype", "argdefault", "infieldset", "intype", "indefault", "inowners", "impl", "members", "values", "dirs"})
        out, i = [], 0
        for k in ks:
            out.append(res[i:i + len(groups[k])])
            i += len(groups[k])
        order_independent(run, out)
    fam(2, 1, 24, None)
    if q:
        lo = 1 + (run.seed * 5) % 15
        fam(3, lo, lo + 9, 110)
    else:
        fam(3, 1, 24, None)
    # random systems of the Mix specification, shuffled
    r = tlc.simulate_many("Mix", 500 if q else 12000, 8, run.seed + 77, depth=126, constants={"Wild": 1})
    run.model("Mix", r)
    rnd = random.Random(run.seed)
    pairs = []
    for c in r["cases"][:600 if q else 12000]:
        sgs = [dict(g, types=list(g["types"])) for g in c["sgs"]]
        rnd.shuffle(sgs)
        for g in sgs:
            g["types"] = reorder(rnd, g["types"])
        pairs.append((render.request(c["sgs"]), render.request(sgs)))
    obs = harness.run([q for p in pairs for q in p])
    run.traces += len(obs)
    order_independent(run, [[(p[0], obs[2 * i]), (p[1], obs[2 * i + 1])] for i, p in enumerate(pairs)])

COMPOSITE_DEFS = {"lookup": "composite__lookup", "derive": "composite__derive", "internal": "composite__internal", "require": "composite__require", "is": "composite__is"}

def c19(run):
    q, inv = run.quick, ["CompositeInv"]
    asp = {"comp", "join", "owners", "outtype", "argset", "argtype", "argdefault", "fieldset", "names"}
    def each(c, rq, o):
        if "diagnostics" not in o:
            return
        ctx = {"request": rq, "observed": {k: v for k, v in o.items() if k not in ("fed", "api")}}
        said = sorted(d["message"] for d in o["diagnostics"] if d["code"] and "LookupReturnsNonNullableType" in d["code"])
        want = sorted((w["g"], w["f"]) for w in c["warns"])
        if len(said) != len(want) or any(not any(f'"{f}"' in m and f"[{g}]" in m for m in said) for g, f in want):
            run.violation(f"lookup fields that are not nullable: the specification reports {want}, composition {said}", ctx)
        if not o["ok"]:
            return
        rt = o["roundtrip"]
        if not (rt.get("same") and rt.get("api_same")):
            run.violation(f"a composed graph with composite directives is not the same after it is rendered and read again", dict(ctx, roundtrip=rt))
        used = {d["d"] for x in c["types"] for site in [x["t"]] + [y for f in x["t"]["fields"] for y in [f] + list(f["args"])] for d in site["dirs"]["comp"]}
        defs = {d["name"]: d for d in o["fed"].get("directives", []) if d["name"].startswith("composite__")}
        if set(defs) != {COMPOSITE_DEFS[d] for d in used}:
            run.violation(f"the graph uses {sorted(used)} and defines {sorted(defs)}", ctx)
        scalar = any(t["name"] == "composite__FieldSelectionMap" for t in o["fed"]["types"])
        if scalar != bool(used & {"require", "is"}):
            run.violation(f"the graph uses {sorted(used)} and {'defines' if scalar else 'does not define'} the type of selection maps", ctx)
    want = ("fed", "api", "dirdefs", "roundtrip")
    comp.family(run, "MC_C19", {"N": 2, "Full": False}, asp, inv, api=True, want=want, each=each, limit=None if not q else 3000)
    if not q:
        comp.family(run, "MC_C19", {"N": 3, "Full": False}, asp, inv, api=True, want=want, each=each, limit=30000, timeout=4000)

CHECKS = {f"C{i:02}": f for i, f in enumerate((c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13), 1)}
CHECKS["C19"] = c19

BOUND = "TLC enumerates every choice of the family within the quoted constants; random systems of Mix.tla combine all features. "
OBS = ("Observed on the federated and client-facing SDL and on the diagnostics only.")
NOTES = {i: (f"Composition.tla, MC_{i}.tla, Mix.tla", BOUND + OBS) for i in CHECKS}
NOTES["C19"] = ("Composition.tla, MC_C19.tla", "Two subgraphs (thorough: three), each linking composite schemas alone, next to federation v2, or not at all, over 24 choices each of lookups, requirements, "
               "internal elements, derived fields and what both specifications share; the graph is rendered, read and rendered again. Not modelled: @internal on an extension of a root type, "
               "fields left in the client-facing schema whose type is internal, keys of interfaces in composite-only subgraphs. " + OBS)
NOTES["C10"] = ("Composition.tla, MC_C10.tla, Access.tla, Mix.tla", BOUND + "Access.tla adds the alternatives of required scopes and policies: sets of uses with up to three alternatives of up to two names, on six kinds of elements. " + OBS)
NOTES["C08"] = ("Composition.tla, MC_C08.tla, Arguments.tla, Mix.tla", BOUND + "Arguments.tla adds one argument of a selected field: its type, its value and the directive. " + OBS)
