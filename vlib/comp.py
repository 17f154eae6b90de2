"""Replays composed systems of the specification in graphql-composition and compares what is observable."""
import json, re
from . import tlc, harness, render, project
from .core import Run

ALL = {"names", "kinds", "join", "impl", "members", "values", "fieldset", "outtype", "owners", "argset", "argtype", "argdefault",
       "infieldset", "intype", "indefault", "inowners", "dirs"}

# Messages of the implementation, per error class of the specification: only used to attribute an unexpected
# rejection of a system that mixes features to one of the properties.
CLASSES = {
    "sharing": r"resolved by multiple subgraphs",
    "override-self": r"Source and destination subgraphs",
    "override-collision": r"overrid",
    "override-cycle": r"is overridden in every subgraph",
    "requires-selection": r"@?requires", "provides-selection": r"@?provides",
    "external-requires": r"cannot have a `@requires`", "external-provides": r"cannot have a `@provides`",
    "arg-default": r"The argument .* incompatible defaults", "arg-required-dropped": r"argument .*required", "arg-type": r"argument has conflicting types",
    "arg-inaccessible-type": r"argument .*@inaccessible type",
    "field-type": r"field has conflicting types", "field-inaccessible-type": r"field .*@inaccessible type",
    "entity-mismatch": r"is an entity in subgraphs", "shareable-missing-field": r"shareable object",
    "interface-shareable": r"not allowed on interfaces", "interface-field-missing": r"is not implemented by",
    "input-required-dropped": r"not defined in all subgraphs", "input-type": r"field has conflicting types", "input-default": r"input field .* incompatible defaults",
    "enum-empty": r"Values for enum", "enum-mismatch": r"values of enum", "kind-mismatch": r"Cannot merge",
    "key-selection": r"@?key", "no-root": r"None of the subgraphs", "reserved-name": r"reserved",
    "subscription-shareable": r"Subscription", "query-inaccessible": r"query root type",
}

def errors(o):
    return [d["message"] for d in o.get("diagnostics", []) if d["severity"] == "error"]

def compact(req):
    return {s["name"]: s["sdl"] for s in req["subgraphs"]}

def dup_keys(sgs):
    for g in sgs:
        for t in g["types"]:
            ks = [json.dumps([d["s"], d["a"]]) for d in t["dirs"] if d["d"] == "key"]
            if len(ks) != len(set(ks)):
                return True
    return False

def judge(run, case, req, o, aspects, classes=None, api=False, regexes=None, sig_prefix=""):
    """classes None: this family is about this property only, any accept/reject difference counts.
    Otherwise accept/reject differences count only when they concern one of the classes."""
    ctx = lambda **k: dict(subgraphs=compact(req), request=req, **k)
    if "panic" in o or "crash" in o:
        run.violation(f"composition crashes: {o.get('panic') or o.get('crash')}", ctx(observed=o))
        return False
    if "ingest_error" in o:
        run.violation(f"a subgraph is refused: {o['ingest_error']}", ctx(observed=o))
        return False
    ok = o["ok"]
    exp = sorted({(e["c"], e["w"]) for e in case["errs"]})
    if case["ok"] != ok:
        if ok:
            mine = [e for e in exp if classes is None or e[0] in classes]
            if mine:
                run.violation(f"composition accepts what must be refused: {mine}", ctx(expected_errors=mine))
                return False
        else:
            msgs = errors(o)
            mine = msgs if classes is None else [m for m in msgs if any(re.search(CLASSES[c], m) for c in classes if c in CLASSES)]
            if mine:
                run.violation(f"composition refuses what it must accept: {mine}", ctx(diagnostics=o["diagnostics"]))
                return False
        run.note("accept/reject difference left to another property")
        return True
    if not ok:
        return True
    if not isinstance(o.get("fed"), dict) or "types" not in o["fed"]:
        run.violation(f"the federated schema does not render to parseable SDL: {str(o.get('fed'))[:300]}", ctx(observed=o))
        return False
    d = project.diff(project.expected(case["types"]), project.observed(o["fed"]), aspects, dup_keys(case["sgs"]))
    for x in d:
        if isinstance(x[3], project.known):
            run.violation(f"{x[0]} of {x[1]}: the specification says {x[2]!r}, the composed graph {tuple(x[3])!r}", ctx(differences=d), sig=x[3].sig)
    d = [x for x in d if not isinstance(x[3], project.known)]
    if d:
        a, w, e, g = d[0]
        run.violation(f"{a} of {w or 'the graph'}: the specification says {e!r}, the composed graph {g!r}" + (f" (and {len(d) - 1} more)" if len(d) > 1 else ""),
                      ctx(differences=d))
        return False
    if api:
        e, g = project.expected_api(case["api"]), project.observed_api(o["api"])
        if e != g:
            g2 = project.without_inaccessible_args(g, case["types"])
            if e == g2:
                run.violation("inaccessible arguments are listed in the client-facing schema", ctx(expected=e, observed=g), sig="api-lists-inaccessible-arguments")
            else:
                w = next((k for k in sorted(set(e) | set(g2)) if e.get(k) != g2.get(k)), "?")
                run.violation(f"client-facing schema, {w}: the specification says {e.get(w)!r}, rendered {g2.get(w)!r}", ctx(expected=e, observed=g))
                return False
    return True

def sgs_key(c):
    return json.dumps(c["sgs"], sort_keys=True)

def replay(run, cases, aspects, classes=None, api=False, want=("fed", "api"), each=None, sample=True):
    reqs = [render.request(c["sgs"], want) for c in cases]
    obs = harness.run(reqs)
    good = 0
    for c, q, o in zip(cases, reqs, obs):
        if o.get("skipped"):
            continue
        ok = judge(run, c, q, o, aspects, classes, api)
        if each:
            each(c, q, o)
        good += ok
        run.note("composable" if c["ok"] else "refused")
        run.validated(1, {"subgraphs": compact(q), "expected": "composes" if c["ok"] else sorted({e["c"] for e in c["errs"]}),
                          "observed": "graph" if o.get("ok") else errors(o)[:2]} if sample and (c["ok"] or run.traces % 7 == 3) else None)
    return list(zip(reqs, obs))

def selftest(run, cases, aspects):
    """The comparison must tell a graph from a slightly different one (or it decides nothing)."""
    oks = [c for c in cases if c["ok"] and len(c["types"]) > 1]
    if not oks or not aspects:
        return
    import random
    for c in random.Random(run.seed).sample(oks, min(40, len(oks))):
        q = render.request(c["sgs"])
        o = harness.run([q])[0]
        scratch = Run(run.pid, run.tier, run.seed)
        def corrupt(t):
            m = dict(t["dirs"], tags=["x"])
            fake = {"n": "fake_", "t": "Int", "def": [], "own": [], "args": [], "dirs": m}
            comp, inp = t["k"] in ("object", "interface"), t["k"] == "input"
            return dict(t, k=t["k"] if comp or inp else "scalar" if t["k"] != "scalar" else "enum", dirs=m, join=[], impl=[], members=[],
                        fields=[dict(f, t=f["t"] + "!!", own=[], args=[dict(a, t=a["t"] + "!!", **{"def": ["77"]}) for a in f["args"]] + [fake], dirs=m) for f in t["fields"]] + [fake] * comp,
                        infields=[dict(f, t=f["t"] + "!!", own=[], dirs=m) for f in t["infields"]] + [fake] * inp, vals=[])
        judge(scratch, dict(c, types=[dict(t, t=corrupt(t["t"])) for t in c["types"]]), q, o, aspects)
        if scratch.violations or not o.get("ok"):
            run.note("self-test: corrupted expectation detected")
            return
    raise harness.ToolError("self-test: a corrupted expectation was not told from the implementation's graph")

def family(run, module, constants, aspects, invariants=(), api=False, limit=None, classes=None, timeout=800, want=("fed", "api"), each=None):
    r = tlc.tlc(module, constants=constants, invariants=invariants, timeout=timeout)
    run.model(module, r)
    cases = sorted(r["cases"], key=sgs_key)
    if limit and len(cases) > limit:
        import random
        cases = random.Random(run.seed).sample(cases, limit)
        run.note(f"{module}: behaviours sampled for replay", limit)
    replay(run, cases, aspects, classes, api, want, each)
    selftest(run, cases, aspects)
    return cases

def mixture(run, n, aspects, classes, api=False, wild=1, each=None, want=("fed", "api")):
    r = tlc.simulate_many("Mix", n, 8, run.seed, depth=126, constants={"Wild": wild})
    run.model("Mix", r)
    replay(run, r["cases"], aspects, classes, api, want, each, sample=False)
    return r["cases"]
