"""Projects a composed federated graph / API schema (generic SDL AST) to the terms of spec/Composition.tla,
and compares expectation and observation aspect by aspect."""
import re
INTERNAL = ("join__", "link__", "core__", "composite__")
BUILTIN = {"String", "Int", "Float", "Boolean", "ID"}

def norm_sel(s):
    return " ".join(re.findall(r"\.\.\.|[A-Za-z_][A-Za-z0-9_]*|\"[^\"]*\"|[^\sA-Za-z_,]", s or ""))

def dget(dirs, name):
    return [a for n, a in dirs if n == name]

def fz(x):
    if isinstance(x, dict):
        return tuple(sorted((k, fz(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(fz(v) for v in x)
    return x

def merged(dirs):
    d = {}
    d["tags"] = sorted(a.get("name") for a in dget(dirs, "tag"))
    d["inacc"] = bool(dget(dirs, "inaccessible"))
    d["auth"] = bool(dget(dirs, "authenticated"))
    d["oneof"] = bool(dget(dirs, "oneOf"))
    dep = dget(dirs, "deprecated")
    d["depr"] = bool(dep)
    d["reason"] = [a.get("reason", "") for a in dep]
    d["scopes"] = sorted(tuple(sorted(s)) for a in dget(dirs, "requiresScopes") for s in a.get("scopes", []))
    d["policies"] = sorted(tuple(sorted(s)) for a in dget(dirs, "policy") for s in a.get("policies", []))
    d["cost"] = [a.get("weight") for a in dget(dirs, "cost")]
    return d

def composite(dirs, g):
    """The directives of the composite schemas specification: (name, subgraph, selection)."""
    return sorted({(n[11:], gname(g, a), norm_sel(a.get("field", ""))) for n, a in dirs if n.startswith("composite__")})

def exp_composite(m):
    return sorted({(c["d"], c["g"], norm_sel(c["f"])) for c in m["comp"]})

def exp_merged(m):
    return {"tags": sorted(m["tags"]), "inacc": m["inacc"], "auth": m["auth"], "oneof": m["oneof"], "depr": m["depr"],
            "reasons": m["reasons"], "scopes": sorted(tuple(sorted(s)) for s in m["scopes"]),
            "policies": sorted(tuple(sorted(s)) for s in m["policies"]), "cost": list(m["cost"])}

def same_merged(e, o):
    if any(e[k] != o[k] for k in ("tags", "inacc", "auth", "oneof", "depr", "scopes", "policies", "cost")):
        return False
    if len(o["reason"]) > 1:
        return False
    if o["reason"] and not (o["reason"][0] in e["reasons"] or (o["reason"][0] in ("", "No longer supported") and "" in e["reasons"])):
        return False
    return True

def lit(v):
    """A default value (harness JSON) as a GraphQL literal."""
    if isinstance(v, dict):
        if "enum" in v:
            return v["enum"]
        if "float" in v:
            return str(v["float"])
        if "object" in v:
            return "{" + ", ".join(f"{k}: {lit(x)}" for k, x in v["object"].items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    if isinstance(v, str):
        return '"' + v + '"'
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "null"
    return str(v)

def default(x):
    return [lit(v) for v in x.get("default", [])]

def graphs(fed):
    g = {}
    for t in fed["types"]:
        if t["kind"] == "enum" and t["name"] == "join__Graph":
            for v in t["values"]:
                for a in dget(v["dirs"], "join__graph"):
                    g[v["name"]] = a.get("name")
    return g

def gname(g, a):
    e = a.get("graph")
    if e is None:
        return None
    e = e["enum"] if isinstance(e, dict) else e
    return g.get(e, "?" + str(e))

def owners(dirs, g, joins):
    jf = dget(dirs, "join__field")
    if not jf:
        return sorted(fz({"g": j, "ext": False, "req": "", "prov": "", "ov": "", "lbl": "", "ty": ""}) for j in joins)
    out = []
    for a in jf:
        if gname(g, a) is None and not [k for k in a if k != "graph"]:
            continue
        out.append(fz({"g": gname(g, a), "ext": bool(a.get("external", False)), "req": norm_sel(a.get("requires", "")),
                       "prov": norm_sel(a.get("provides", "")), "ov": a.get("override", ""), "lbl": a.get("overrideLabel", ""),
                       "ty": a.get("type", "")}))
    return sorted(set(out), key=repr)

def observed(fed):
    """name -> projected type."""
    g = graphs(fed)
    out = {}
    for t in fed["types"]:
        n = t["name"]
        if n.startswith(INTERNAL) or n in BUILTIN:
            continue
        d = t["dirs"]
        joins = sorted({gname(g, a) for a in dget(d, "join__type")} - {None})
        p = {"k": t["kind"], "dirs": merged(d), "comp": composite(d, g)}
        p["join"] = sorted((gname(g, a), norm_sel(a.get("key", "")), a.get("resolvable", True), a.get("isInterfaceObject", False)) for a in dget(d, "join__type"))
        p["joinset"] = sorted(set(p["join"]))
        p["implements"] = sorted(set(t.get("implements", [])))
        p["impl"] = sorted({(gname(g, a), a.get("interface")) for a in dget(d, "join__implements")})
        p["members"] = sorted({(gname(g, a), a.get("member")) for a in dget(d, "join__unionMember")})
        p["union"] = sorted(t.get("members", []))
        p["vals"] = {v["name"]: {"own": sorted(gname(g, a) for a in dget(v["dirs"], "join__enumValue")), "dirs": merged(v["dirs"])} for v in t.get("values", [])}
        fs = {}
        for f in t.get("fields", []) or []:
            if t["kind"] == "input":
                jf = dget(f["dirs"], "join__field")
                own = sorted({(gname(g, a), a.get("type", "")) for a in jf}) if jf else [(j, "") for j in joins]
                fs[f["name"]] = {"t": f["type"], "def": default(f), "own": own, "dirs": merged(f["dirs"])}
            else:
                fs[f["name"]] = {"t": f["type"], "own": owners(f["dirs"], g, joins),
                                 "marked": any(gname(g, a) is None for a in dget(f["dirs"], "join__field")),
                                 "args": {a["name"]: {"t": a["type"], "def": default(a), "dirs": merged(a["dirs"]), "comp": composite(a["dirs"], g)} for a in f.get("args", [])},
                                 "dirs": merged(f["dirs"]), "comp": composite(f["dirs"], g)}
        p["fields"] = fs
        out[n] = p
    return out

def expected(types):
    out = {}
    for x in types:
        t = x["t"]
        p = {"k": t["k"], "dirs": exp_merged(t["dirs"]), "comp": exp_composite(t["dirs"])}
        p["joinset"] = sorted({(j["g"], norm_sel(j["key"]), j["res"], j["io"]) for j in t["join"]})
        p["altjoin"] = sorted({(j["g"], norm_sel(j["key"]), j["res"], j["io"]) for j in t["altjoin"]})
        p["impl"] = sorted({(j["g"], j["i"]) for j in t["impl"]})
        p["implements"] = sorted({j["i"] for j in t["impl"]})
        p["members"] = sorted({(m["g"], m["m"]) for m in t["members"]})
        p["union"] = sorted({m["m"] for m in t["members"]})
        p["vals"] = {v["n"]: {"own": sorted(v["own"]), "dirs": exp_merged(v["dirs"])} for v in t["vals"]}
        fs = {}
        for f in t["fields"]:
            fs[f["n"]] = {"t": f["t"], "own": sorted({fz({**o, "req": norm_sel(o["req"]), "prov": norm_sel(o["prov"])}) for o in f["own"]}, key=repr),
                          "args": {a["n"]: {"t": a["t"], "def": a["def"], "dirs": exp_merged(a["dirs"]), "comp": exp_composite(a["dirs"])} for a in f["args"]},
                          "dirs": exp_merged(f["dirs"]), "comp": exp_composite(f["dirs"])}
        for f in t["infields"]:
            fs[f["n"]] = {"t": f["t"], "def": f["def"], "own": sorted((o["g"], o["ty"]) for o in f["own"]), "dirs": exp_merged(f["dirs"])}
        p["fields"] = fs
        out[x["n"]] = p
    return out

class known(tuple):
    """An observation that is a recorded defect."""
    def __new__(cls, sig, v):
        x = tuple.__new__(cls, v)
        x.sig = sig
        return x

def diff(exp, obs, aspects, dup_keys=False):
    # dup_keys: some subgraph repeats a key
    """List of (aspect, where, expected, observed). Aspects: names, kinds, join, impl, members, values, fieldset,
    outtype, owners, requires, args, argtype, infields, dirs."""
    out = []
    def cmp(asp, where, e, o):
        if asp in aspects and e != o:
            out.append((asp, where, e, o))
    cmp("names", "", sorted(exp), sorted(obs))
    for n, e in exp.items():
        o = obs.get(n)
        if o is None:
            if "names" not in aspects:
                out.append(("names", n, "present", "absent"))
            continue
        cmp("kinds", n, e["k"], o["k"])
        if e["altjoin"] and o["joinset"] == e["altjoin"] != e["joinset"]:
            cmp("join", n, e["joinset"], known("entity-interface-drops-definitions", o["joinset"]))
        else:
            cmp("join", n, e["joinset"], o["joinset"])
        if len(o["join"]) != len(o["joinset"]) and not dup_keys:
            cmp("join", n, "no duplicate join__type", o["join"])
        cmp("comp", n, e["comp"], o["comp"])
        cmp("impl", n, (e["impl"], e["implements"]), (o["impl"], o["implements"]))
        cmp("members", n, (e["members"], e["union"]), (o["members"], o["union"]))
        cmp("values", n, {k: v["own"] for k, v in e["vals"].items()}, {k: v["own"] for k, v in o["vals"].items()})
        cmp("valueset", n, sorted(e["vals"]), sorted(o["vals"]))
        if "dirs" in aspects:
            if not same_merged(e["dirs"], o["dirs"]):
                out.append(("dirs", n, e["dirs"], o["dirs"]))
            for k in e["vals"]:
                if k in o["vals"] and not same_merged(e["vals"][k]["dirs"], o["vals"][k]["dirs"]):
                    out.append(("dirs", f"{n}.{k}", e["vals"][k]["dirs"], o["vals"][k]["dirs"]))
        if e["k"] == "input":
            cmp("infieldset", n, sorted(e["fields"]), sorted(o["fields"]))
        else:
            cmp("fieldset", n, sorted(e["fields"]), sorted(o["fields"]))
        for fn, ef in e["fields"].items():
            of = o["fields"].get(fn)
            if of is None:
                continue
            w = f"{n}.{fn}"
            if "dirs" in aspects and not same_merged(ef["dirs"], of["dirs"]):
                out.append(("dirs", w, ef["dirs"], of["dirs"]))
            if e["k"] == "input":
                cmp("intype", w, ef["t"], of["t"])
                cmp("indefault", w, ef["def"], of["def"])
                cmp("inowners", w, ef["own"], of["own"])
                continue
            cmp("comp", w, ef["comp"], of["comp"])
            cmp("outtype", w, ef["t"], of["t"])
            cmp("owners", w, ef["own"], of["own"])
            if "ownset" in aspects:
                strip = lambda own: sorted((dict(x)["g"], dict(x)["ext"]) for x in own)
                cmp("ownset", w, strip(ef["own"]), strip(of["own"]))
            if "ownoverride" in aspects:
                strip = lambda own: sorted((dict(x)["g"], dict(x)["ov"], dict(x)["lbl"]) for x in own)
                cmp("ownoverride", w, strip(ef["own"]), strip(of["own"]))
            if "ownsel" in aspects:
                strip = lambda own: sorted((dict(x)["g"], dict(x)["ext"], dict(x)["req"], dict(x)["prov"]) for x in own)
                cmp("ownsel", w, strip(ef["own"]), strip(of["own"]))
            cmp("argset", w, sorted(ef["args"]), sorted(of["args"]))
            for an, ea in ef["args"].items():
                oa = of["args"].get(an)
                if oa is None:
                    continue
                cmp("comp", f"{w}({an})", ea["comp"], oa["comp"])
                cmp("argtype", f"{w}({an})", ea["t"], oa["t"])
                cmp("argdefault", f"{w}({an})", ea["def"], oa["def"])
                if "dirs" in aspects and not same_merged(ea["dirs"], oa["dirs"]):
                    out.append(("dirs", f"{w}({an})", ea["dirs"], oa["dirs"]))
    return out

def observed_api(api):
    out = {}
    for t in api["types"]:
        n = t["name"]
        if n in BUILTIN:
            continue
        io = lambda x: {"t": x["type"], "def": default(x), "depr": bool(dget(x["dirs"], "deprecated"))}
        p = {"k": t["kind"], "depr": bool(dget(t["dirs"], "deprecated")), "fields": {}, "infields": {}, "vals": {}, "members": sorted(t.get("members", []))}
        for v in t.get("values", []):
            p["vals"][v["name"]] = bool(dget(v["dirs"], "deprecated"))
        for f in t.get("fields", []) or []:
            if t["kind"] == "input":
                p["infields"][f["name"]] = io(f)
            else:
                p["fields"][f["name"]] = {"t": f["type"], "depr": bool(dget(f["dirs"], "deprecated")), "args": {a["name"]: io(a) for a in f.get("args", [])}}
        out[n] = p
    return out

def expected_api(types):
    out = {}
    io = lambda xs: {a["n"]: {"t": a["t"], "def": a["def"], "depr": a["depr"]} for a in xs}
    for x in types:
        out[x["n"]] = {"k": x["k"], "depr": x["depr"], "infields": io(x["infields"]), "vals": {v["n"]: v["depr"] for v in x["vals"]},
                       "members": sorted(x["members"]),
                       "fields": {f["n"]: {"t": f["t"], "depr": f["depr"], "args": io(f["args"])} for f in x["fields"]}}
    return out

def without_inaccessible_args(api, types):
    """The observed API schema minus the arguments the composed graph marks inaccessible."""
    hide = {(x["n"], f["n"], a["n"]) for x in types for f in x["t"]["fields"] for a in f["args"] if a["dirs"]["inacc"]}
    return {n: dict(t, fields={fn: dict(f, args={a: v for a, v in f["args"].items() if (n, fn, a) not in hide}) for fn, f in t["fields"].items()})
            for n, t in api.items()}
