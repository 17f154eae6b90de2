"""F01, F02, W01, X01, X02, R01, N01: small languages and data structures."""
import json, random, re
from vlib import harness, tlc

# ------------------------------------------------------------------ field selection maps
NAMES = ["a", "id", "name", "Foo", "_x", "__typename", "a1", "_", "Z9_", "null", "true", "type", "on", "looooooooong"]
BAD = ["1", "1a", "-", "$", "@", "\"", "(", ")", "!", "=", "&", "\\", "/", "é", "*", "%", "^", "~", ";", "?"]
WS = ["", "", "", " ", "  ", "\t", "\n", "\r\n", " \n\t "]

class SelText:
    def __init__(self, rnd, toks):
        self.names, out = {}, []
        prev = None
        for i, t in enumerate(toks, 1):
            gap = rnd.choice(WS)
            # a name that follows anything that can end a name or a field is set off by white space
            if t == "n" and prev not in (None, "<", "{", "[", "|", ":") and not (prev == "." and i > 2 and toks[i - 3] in ("n", ">")):
                gap = rnd.choice(WS[3:])
            if t == "n":
                self.names[i] = rnd.choice(NAMES)
            out.append(gap + (self.names[i] if t == "n" else rnd.choice(BAD) if t == "x" else t))
            if t == "x" and prev == "n" and out[-1].startswith("1"):
                out[-1] = " " + out[-1]
            prev = t
        self.text = "".join(out) + rnd.choice(WS)
    def path(self, p):
        if not p["s"]:
            return None
        return {"t": self.names.get(p["t"]), "s": [[self.names[x["f"]], self.names.get(x["t"])] for x in p["s"]]}
    def value(self, v):
        return [self.entry(e) for e in v]
    def entry(self, e):
        if e["k"] == "identity":
            return {"k": "identity"}
        d = {"k": e["k"], "p": self.path(e["p"])}
        if e["k"] == "object":
            d["o"] = [[self.names[f["k"]], self.value(f["v"]) if f["v"] else None] for f in e["o"]]
        if e["k"] == "list":
            d["l"] = self.value(e["l"])
        return d

SELINV = ["Unambiguous", "Printed", "Closed"]
def selmaps(run, which):
    rnd = random.Random(run.seed)
    cs = dict(Alphabet={"n", "<", ">", ".", "{", "}", "[", "]", "|", ":"}, MaxLen=4 if run.quick else 6)
    r = tlc.tlc("SelectionMap", constants=cs, invariants=SELINV, init="InitAll", next_="NextAll", timeout=3000)
    run.model("SelectionMap (all short texts)", r)
    selreplay(run, which, r["cases"], rnd)
    n, batch = (32000, 32000) if run.quick else (600000, 60000)
    for b in range(n // batch):
        r = tlc.simulate_many("SelectionMap", batch, 8, run.seed + 13 * b, depth=501, constants=cs, invariants=SELINV, timeout=1800)
        run.model("SelectionMap", r)
        selreplay(run, which, r["cases"], rnd)

def selreplay(run, which, cases, rnd):
    if which == "F02":
        cases = [c for c in cases if c["ok"]]
    texts = [SelText(rnd, c["toks"]) for c in cases for _ in range(2 if which == "F02" else 1)]
    cases = [c for c in cases for _ in range(2 if which == "F02" else 1)]
    for c, t, o in zip(cases, texts, harness.run([{"op": "selection_map", "text": t.text} for t in texts])):
        case = {"text": t.text, "observed": o}
        want = t.value(c["tree"]) if c["ok"] else None
        if which == "F01":
            run.validated(1, {"text": t.text, "tree": want} if c["ok"] and run.traces % 999 == 5 else None)
            run.note("grammatical" if c["ok"] else "not grammatical")
            if "panic" in o:
                run.violation(f"parsing crashes: {o['panic']}", case)
            elif c["ok"] and "error" in o:
                run.violation(f"a grammatical selection map is refused: {t.text!r}", case)
            elif not c["ok"] and "error" not in o:
                run.violation(f"a text outside the grammar is accepted: {t.text!r}", case)
            elif c["ok"] and o["tree"] != want:
                run.violation(f"{t.text!r} is read as {o['tree']}, not as {want}", case)
        elif "tree" in o:
            run.validated(1, {"text": t.text, "printed": o["printed"]} if run.traces % 999 == 5 else None)
            a = o["again"]
            if a.get("tree") != o["tree"] or not a["equal"] or not a["printed"]:
                run.violation(f"{t.text!r} prints as {o['printed']!r}, which parses to {a.get('tree', a)}", case)

# ------------------------------------------------------------------ wrapping types
def wrapping(run):
    inv = ["WellFormed", "Order", "Inverse"]
    r = tlc.tlc("Wrapping", constants=dict(MaxLists=5 if run.quick else 10, Steps=0), invariants=inv, init="InitAll", next_="NextAll", view="Seen", timeout=3000)
    run.model("Wrapping (every type)", r)
    wrapreplay(run, r["cases"])
    n, batch = (2400, 2400) if run.quick else (80000, 8000)
    for b in range(n // batch):
        r = tlc.simulate_many("Wrapping", batch * 30, 8, run.seed + 5 * b, depth=3001, constants=dict(MaxLists=10, Steps=30), invariants=inv, timeout=1800)
        run.model("Wrapping", r)
        wrapreplay(run, r["cases"])

def wrapreplay(run, cases):
    for c, o in zip(cases, harness.run([{"op": "wrapping", "ops": [{"op": x["op"], "r": x["r"]} for x in c]} for c in cases])):
        run.validated(1, [x["op"] + str(x["r"]) for x in c] if run.traces % 400 == 9 else None)
        case = {"history": [(x["op"], x["r"]) for x in c], "observed": o}
        if "out" not in o:
            run.violation(f"a supported history crashes: {o}", case)
            continue
        for i, (w, g) in enumerate(zip(c, o["out"])):
            s, see = w["see"], g["see"]
            popped = {"pop": w["popped"], "without_list": w["popped"] != "none"}.get(w["op"])
            text = "[" * len(s["lists"]) + "T" + "".join(s["text"])
            want = {"lists": list(s["lists"]), "back": list(s["lists"]), "len": len(s["lists"]), "inner": s["inner"], "nonnull": [s["nonnull"]] * 4,
                    "list": [s["list"]] * 2, "iter": list(s["iter"]), "text": text, "fresh": True}
            if see != want:
                run.violation(f"after {[(x['op'], x['r']) for x in c[:i + 1]]} the type must be {want}, it is {see}", case)
                break
            if g["popped"] != popped or g["same"] != w["same"] or g["lenient"] != list(w["lenient"]):
                run.violation(f"after {[(x['op'], x['r']) for x in c[:i + 1]]}: popped {g['popped']} (must be {popped}), equal {g['same']} ({w['same']}), lenient {g['lenient']} ({w['lenient']})", case)
                break

# ------------------------------------------------------------------ identifiers, references, catalogue
def ids(run):
    rnd = random.Random(run.seed)
    n, batch = (24000, 24000) if run.quick else (800000, 80000)
    for b in range(n // batch):
        r = tlc.simulate_many("Ids", batch, 8, run.seed + 3 * b, depth=1001, invariants=["Unambiguous", "WriteRead"], timeout=1800)
        run.model("Ids", r)
        chars = {"a": "abxyzABeErv", "7": "123456789", "x": " @/:~^é*,", "0": "0", "_": "_", "-": "-", ".": ".", "+": "+"}
        cases = [(c, [rnd.choice(chars[k]) for k in c["s"]]) for c in r["cases"] if c["v"] != "open"]
        for (c, t), o in zip(cases, harness.run([{"op": "extension_id", "text": "".join(t)} for _, t in cases])):
            text, case = "".join(t), {"text": "".join(t), "observed": o}
            run.validated(1, {"text": text, "verdict": c["v"]} if run.traces % 3000 == 9 else None)
            run.note(c["v"])
            if "panic" in o:
                run.violation(f"parsing {text!r} crashes: {o['panic']}", case)
            elif c["v"] == "refuse":
                if "error" not in o:
                    run.violation(f"{text!r} is no identifier but is read as {o['name']!r}, {o['version']}", case)
            elif "error" in o:
                run.violation(f"the identifier {text!r} is refused: {o['error']}", case)
            else:
                name, version = "".join(t[:c["at"] - 1]), "".join(t[c["at"]:])
                if (o["name"], o["version"], o["printed"], o["again"]) != (name, version, text, True):
                    run.violation(f"{text!r} is read as {o['name']!r}, {o['version']} and printed as {o['printed']!r}", case)

def refs(run):
    rnd = random.Random(run.seed)
    r = tlc.tlc("GraphRef", constants=dict(MaxLen=6 if run.quick else 9), invariants=["RoundTrip"], timeout=3000)
    run.model("GraphRef", r)
    pool = list("abz019-_.ABé ~$:?") + ["graph", "main", "feature-x", "v1"]
    for _ in range(3):
        cases = [(c, [rnd.choice(pool) if k == "n" else k for k in c["s"]]) for c in r["cases"] if c["r"]["v"] != "open"]
        for (c, t), o in zip(cases, harness.run([{"op": "graph_ref", "text": "".join(t)} for _, t in cases])):
            text, w = "".join(t), c["r"]
            case = {"text": text, "observed": o}
            run.validated(1, {"text": text, "verdict": w["v"]} if run.traces % 3000 == 9 else None)
            run.note(w["v"])
            if "panic" in o:
                run.violation(f"parsing {text!r} crashes: {o['panic']}", case)
            elif w["v"] == "refuse":
                if "error" not in o:
                    run.violation(f"{text!r} is no graph reference but is read as {o}", case)
            elif "error" in o:
                run.violation(f"the reference {text!r} is refused: {o['error']}", case)
            else:
                slug = "".join(t[:w["slug"]])
                branch = None if w["kind"] == "graph" else "".join(t[w["slug"] + 1:w["slug"] + 1 + w["branch"]])
                version = "".join(t[w["slug"] + w["branch"] + 2:]) if w["kind"] == "version" else None
                if (o["slug"], o["branch"], o["version"], o["printed"], o["again"], o["built"]) != (slug, branch, version, text, True, True):
                    run.violation(f"{text!r} is read as {o}", case)

def vtext(v, n=3):
    s = ".".join(str(x) for x in (v["a"], v["b"], v["c"])[:n])
    return s + (f"-rc.{v['p']}" if n == 3 and v["p"] else "")

def catalog(run):
    n, batch = (2400, 2400) if run.quick else (80000, 8000)
    for b in range(n // batch):
        r = tlc.simulate_many("Catalog", batch * 25, 8, run.seed + 3 * b, depth=2501, constants=dict(Steps=25), invariants=["Total", "Exact", "Stable"], timeout=1800)
        run.model("Catalog", r)
        reqs = []
        for c in r["cases"]:
            ops = []
            for e in c:
                d = {k: v for k, v in e.items() if k not in ("expect", "v", "req")}
                if e["op"] == "push":
                    d["version"] = vtext(e["v"])
                if e["op"] == "find":
                    d["name"] = e["name"] or None
                    d["req"] = ", ".join("*" if x["op"] == "*" else x["op"] + vtext(x["v"], x["n"]) for x in e["req"]) or None
                ops.append(d)
            reqs.append({"op": "catalog", "ops": ops})
        for c, rq, o in zip(r["cases"], reqs, harness.run(reqs)):
            run.validated(1, rq["ops"][:6] if run.traces % 500 == 9 else None)
            case = {"request": rq, "observed": o}
            if "out" not in o:
                run.violation(f"the catalogue crashes: {o}", case)
                continue
            size = 0
            for e, op, g in zip(c, rq["ops"], o["out"]):
                size += e["op"] == "push"
                run.note(f"{e['op']} {'hit' if e['expect'] >= 0 else 'miss'}")
                if g != [e["expect"], size, size == 0]:
                    run.violation(f"{op} finds number {g[0]} of {g[1]} extensions, it must be {e['expect']} of {size}", case)
                    break

# ------------------------------------------------------------------ linter
STYLE = {
    "pascal": lambda w: "".join(x.capitalize() for x in w), "camel": lambda w: w[0] + "".join(x.capitalize() for x in w[1:]),
    "shouty": lambda w: "_".join(w).upper(), "snake": lambda w: "_".join(w), "train": lambda w: "_".join(x.capitalize() for x in w),
    "loud": lambda w: "".join(w).upper(), "under": lambda w: "_" + STYLE["camel"](w), "system": lambda w: "__" + STYLE["camel"](w),
    "scoped": lambda w: w[0] + "__" + "_".join(w[1:]), "trail": lambda w: "_".join(w) + "_"}
WORDOF = {"object": "type", "interface": "interface", "union": "union", "enum": "enum", "input": "input", "scalar": "scalar"}

class Schema:
    def __init__(self, rnd, doc):
        self.els = {x["id"]: x for x in doc}
        self.kids = {}
        for x in doc:
            self.kids.setdefault(x["of"], []).append(x)
        parts = []
        for x in doc:
            if x["el"] in ("type", "ext"):
                parts.append(self.type(rnd, x))
        if rnd.random() < .3:
            parts.append("schema { query: Query }")
        rnd.shuffle(parts)
        self.sdl = "\n".join(parts)
    def name(self, x):
        return x["root"] or STYLE[x["nm"]["st"]](x["nm"]["ws"])
    def typ(self, x):
        x = self.els[x["of"]] if x["el"] not in ("type", "ext") else x
        return self.els[x["of"]] if x["el"] == "ext" else x
    def dep(self, rnd, x):
        return {"no": rnd.choice(["", "", " @other", ' @other(reason: "x")']), "bare": rnd.choice([" @deprecated", " @other @deprecated", ' @deprecated @other(reason: "y")']),
                "reason": rnd.choice([' @deprecated(reason: "")', ' @other @deprecated(reason: "old")'])}[x["dep"]]
    def type(self, rnd, x):
        t = self.typ(x)
        k, kids = t["kind"], self.kids.get(x["id"], [])
        dep = "" if k == "directive" else self.dep(rnd, x)
        def body(f, own):
            ks = [f(y) for y in kids if y["el"] == own]
            return " { " + "\n ".join(ks) + " }" if ks else ""
        if k == "directive":
            args = [f"{self.name(y)}: Int" for y in kids if y["el"] == "dirarg"]
            return f"directive @{self.name(t)}" + (f"({', '.join(args)})" if args else "") + " on FIELD"
        def field(y):
            args = [f"{self.name(a)}: Int" + rnd.choice(["", " @deprecated"]) for a in self.kids.get(y["id"], []) if a["el"] == "arg"]
            return self.name(y) + (f"({', '.join(args)})" if args else "") + ": Int" + self.dep(rnd, y)
        s = {"object": lambda: body(field, "field"), "interface": lambda: body(field, "field"), "enum": lambda: body(lambda y: self.name(y) + self.dep(rnd, y), "value"),
             "input": lambda: body(lambda y: f"{self.name(y)}: Int" + self.dep(rnd, y), "inputfield"), "union": lambda: " = A" if rnd.random() < .5 else "", "scalar": lambda: ""}[k]()
        return ("extend " if x["el"] == "ext" else "") + f"{WORDOF[k]} {self.name(t)}{dep}{s}"
    def fix(self, x, conv):
        w = x["nm"]["ws"] if x["nm"]["st"] != "loud" else ["".join(x["nm"]["ws"])]
        return STYLE[conv](w)
    def message(self, r):
        x = self.els[r["id"]]
        n, t = self.name(x), self.typ(x)
        tn, k = self.name(t), t["kind"] if t["el"] == "type" else None
        rule, _, word = r["rule"].partition(" ")
        if x["el"] == "arg":
            f = self.els[x["of"]]
            t = self.typ(f)
            return ("rename", f"argument '{n}' on field '{self.name(f)}' on {WORDOF[t['kind']]} '{self.name(t)}'", self.fix(x, rule))
        where = {"type": lambda: f"{WORDOF.get(k, k)} '{n}'", "dirarg": lambda: f"argument '{n}' on directive '{tn}'", "inputfield": lambda: f"input value '{n}' on input '{tn}'",
                 "field": lambda: f"field '{n}' on {WORDOF[k]} '{tn}'", "value": lambda: f"{'enum value' if rule == 'reason' else 'value'} '{n}' on enum '{tn}'"}[x["el"]]()
        if rule in ("prefix", "suffix"):
            return (rule, where, word if rule == "prefix" and x["el"] == "field" else word.capitalize())
        return ("reason", where, "") if rule == "reason" else ("rename", where, self.fix(x, rule))

def shape(m):
    for kind, rx in (("rename", r"^(.*) should be renamed to '(.*)'$"), ("prefix", r"^(.*) has a forbidden prefix: '(.*)'$"), ("suffix", r"^(.*) has a forbidden suffix: '(.*)'$"),
                     ("reason", r"^usage of directive 'deprecated' on (.*) does not populate the 'reason' argument()$")):
        g = re.match(rx, m)
        if g:
            return (kind, g.group(1), g.group(2))
    return ("unknown", m, "")

def lint(run):
    rnd = random.Random(run.seed)
    n, batch = (1600, 1600) if run.quick else (60000, 8000)
    for b in range(max(1, n // batch)):
        r = tlc.simulate_many("Lint", batch * 15, 8, run.seed + 3 * b, depth=1501, invariants=["Local", "Usually"], timeout=1800)
        run.model("Lint", r)
        ss = [Schema(rnd, c["doc"]) for c in r["cases"]]
        for c, s, o in zip(r["cases"], ss, harness.run([{"op": "lint", "sdl": s.sdl} for s in ss])):
            run.validated(1, s.sdl if run.traces % 400 == 9 else None)
            case = {"sdl": s.sdl, "observed": o}
            if "diagnostics" not in o:
                run.violation(f"the linter fails: {o}", case)
                continue
            want, got = {s.message(x) for x in c["expect"]}, {shape(m) for m in o["diagnostics"]}
            run.note("findings", len(want))
            if want - got:
                run.violation(f"not reported: {sorted(want - got)}", case)
            elif got - want:
                run.violation(f"reported without reason: {sorted(got - want)}", case)

# ------------------------------------------------------------------ stored manifests
PROSE = {"plain": "An extension.", "unicode": "é ☃ \U0001f600", "lines": "a\n  \"b\"\r\n\\t", "": ""}
WRONGS = {
    "id": {"text": "rest-1.0.0", "no-version": {"name": "rest"}, "no-name": {"version": "1.0.0"}, "bad-version": {"name": "rest", "version": "1.0"}, "null": None},
    "type": {"unknown-type": {"Other": {}}, "lower-case": {"resolver": {}}, "text": "Resolver", "two-types": {"Resolver": {}, "Hooks": {}}, "null": None,
             "list-of-numbers": {"Resolver": {"directives": [1]}}, "unknown-group": {"Authorization": {"group_by": ["type"]}}},
    "sdk_version": {"number": 1, "bad-version": "1.2", "null": None, "requirement": "^1.2.0"},
    "minimum_gateway_version": {"number": 0.1, "bad-version": "v1.2.0", "null": None, "requirement": ">=1.2.0"},
    "description": {"number": 1, "null": None}, "associated_link_urls": {"text": "a", "null": None, "numbers": [1]},
    "sdl": {"number": 1}, "readme": {"number": 1}, "license": {"number": 1},
    "homepage_url": {"relative": "/x", "number": 1}, "repository_url": {"relative": "x", "number": 1},
    "permissions": {"text": "network", "null": None, "unknown": ["files"]},
    "event_filter": {"unknown-event": {"Types": ["query"]}, "unknown-filter": "Some", "number": 1},
}
def m_part(p):
    return {"absent": None, "null": None, "list": p["l"]}[p["tag"]]
def m_filter(p):
    return {"all-text": "All", "all-map": {"All": None}, "null": None}[p["tag"]] if p["tag"] != "types" else {"Types": p["l"]}
# keys of other types of extension, and unknown ones, which a type does not have
STRAYS = {"resolver_directives": ["stray"], "authorization_directives": ["stray"], "directives": ["stray"], "group_by": ["subgraph"], "event_filter": {"include": "all"}, "unknown": {"a": 1}}
def m_value(k, v, stray=""):
    if v["tag"] == "wrong":
        return WRONGS[k][v["l"][0]]
    if v["tag"] == "null":
        return None
    if k == "type":
        body = {}
        if v["key"]:
            body[v["key"]] = m_part(v["ls"])
        if v["g"]["tag"] != "absent":
            body["group_by"] = m_part(v["g"])
        if v["f"]["tag"] != "absent":
            body["event_filter"] = m_filter(v["f"])
        if stray:
            body[stray] = STRAYS[stray]
        return {v["k"]: body}
    if k == "id":
        return {"name": v["l"][0], "version": v["l"][1]}
    if k == "event_filter":
        return m_filter(v)
    if v["tag"] == "text":
        return PROSE.get(v["l"][0], v["l"][0])
    return v["l"]
def m_text(rnd, d, stray=""):
    items = [(k if k != "type" else rnd.choice(["type", "kind"]) if d["spelling"] == "both" else d["spelling"], m_value(k, v, stray)) for k, v in d["m"].items() if v["tag"] != "absent"]
    if d["spelling"] == "both":
        items.append(("kind" if "type" in dict(items) else "type", {"Resolver": {}}))
    if d["extra"] == "document":
        items += [("unknown", {"a": [1]}), ("Description", "x")]
    if d["tag"] not in ("none", "!missing"):
        items.append(("manifest", d["tag"].lstrip("!")))
    rnd.shuffle(items)
    return "{" + ", ".join(f"{json.dumps(k)}: {json.dumps(v, ensure_ascii=rnd.random() < 0.5)}" for k, v in items) + "}"
def m_read(r):
    out = {}
    for k, v in r.items():
        if k == "type":
            out[k] = {"k": v["k"], "l": m_part(v["ls"]), "g": m_part(v["g"]), "f": None if v["f"]["tag"] == "absent" else "all" if v["f"]["tag"] == "all" else v["f"]["l"]}
        elif k == "event_filter":
            out[k] = None if v["tag"] == "absent" else "all" if v["tag"] == "all" else v["l"]
        elif k in ("id", "permissions", "associated_link_urls"):
            out[k] = v["l"]
        else:
            out[k] = None if v["tag"] == "absent" else PROSE.get(v["l"][0], v["l"][0])
    return out

def x03(run):
    rnd = random.Random(run.seed)
    inv = ["RoundTrip", "SpellingOnly"]
    r = tlc.tlc("Manifest", constants=dict(Steps=40), invariants=inv, init="InitAll", next_="NextAll", timeout=800)
    run.model("Manifest (one step from the minimal one)", r)
    x03_replay(run, r["cases"], rnd)
    for b in range(1 if run.quick else 8):
        r = tlc.simulate_many("Manifest", 40000 if run.quick else 160000, 8, run.seed + 13 * b, depth=1001, constants=dict(Steps=40), invariants=inv, timeout=1500)
        run.model("Manifest", r)
        x03_replay(run, r["cases"], rnd)
    r = tlc.tlc("Manifest", constants=dict(Steps=40), init="InitLocks", next_="NextLocks", timeout=800)
    run.model("Manifest (lockfiles)", r)
    reqs, want = [], []
    for c in r["cases"]:
        l = [[PROSE["unicode"] if n == "unicode" else n, v] for n, v in c["l"]]
        d = {"version": "1", "extensions": [{"name": n, "version": v} for n, v in l]}
        w = json.loads(json.dumps(d))
        f = c["fault"]
        if f.startswith("version"):
            d["version"] = {"version-2": "2", "version-number": 1}[f]
        elif f.startswith("no"):
            del d["version" if f == "no-version-key" else "extensions"]
        elif f:
            d["extensions"].insert(rnd.randrange(len(l) + 1), {"entry-without-name": {"version": "1.0.0"}, "entry-without-version": {"name": "x"}, "entry-bad-version": {"name": "x", "version": "1"}}[f])
        items = list(d.items())
        rnd.shuffle(items)
        reqs.append({"op": "lockfile", "text": json.dumps(dict(items))})
        want.append({"read": l, "written": w} if c["ok"] else None)
    for q, w, o in zip(reqs, want, harness.run(reqs)):
        run.validated(1)
        if ("error" in o) != (w is None) or (w is not None and w != o):
            run.violation(f"the lockfile {q['text'][:300]} is {'accepted' if w is None else 'read as'} {json.dumps(o)[:300]}", q)

def x03_replay(run, cases, rnd):
    reqs = [{"op": "manifest", "text": m_text(rnd, c["doc"], c["stray"]), "tagged": c["doc"]["tag"] != "none"} for c in cases]
    for c, q, o in zip(cases, reqs, harness.run(reqs)):
        run.validated(1, q["text"] if len(q["text"]) > 300 else None)
        run.note("read" if c["ok"] else "refused")
        if not c["ok"]:
            if "error" not in o:
                run.violation(f"the manifest {q['text'][:500]} is read, but the specification refuses it", q)
            continue
        if "read" not in o:
            run.violation(f"the manifest {q['text'][:500]} is refused: {json.dumps(o)[:200]}", q)
            continue
        written = json.loads(m_text(rnd, dict(c["written"])))
        plain = {k: v for k, v in written.items() if k != "manifest"}
        want = {"read": m_read(c["read"]), "asks": c["asks"], "again": True, "written": written, "plain": plain}
        bad = [k for k in want if want[k] != o[k]]
        if bad:
            run.violation(f"the manifest {q['text'][:500]}: {bad[0]} is {json.dumps(o[bad[0]])[:400]} instead of {json.dumps(want[bad[0]])[:400]}", {"request": q, "expected": want})

# ------------------------------------------------------------------ collections over identifiers
def i01(run):
    inv = ["Within", "Algebra", "SliceOfMembers", "Partition"]
    for b in range(1 if run.quick else 10):
        r = tlc.simulate_many("Collections", 100000 if run.quick else 400000, 8, run.seed + 13 * b, depth=1001, constants=dict(Steps=25, Widths={0, 1, 5, 31, 32, 33, 63, 64, 65, 70}), invariants=inv, timeout=1500)
        run.model("Collections", r)
        reqs = [{"op": "collections", "ops": [{"o": s["o"], "args": s["args"] or {}, "probe": s["see"]["probe"]} for s in c]} for c in r["cases"]]
        for c, q, o in zip(r["cases"], reqs, harness.run(reqs)):
            bad = None
            for i, s in enumerate(c):
                if "out" not in o or i >= len(o["out"]):
                    bad = (i, "no answer", o)
                    break
                g, e = o["out"][i], s["see"]
                ret = s["ret"] + [True] if s["o"] == "compare" else s["ret"]
                want = {"ret": ret, "a": dict(e["a"], consistent=True), "r": dict(e["r"], consistent=True), "ids": e["ids"], "vals": sorted(e["vals"]), "one": e["one"], "one_ok": True}
                w = [k for k in want if want[k] != g[k]]
                if w:
                    bad = (i, {k: want[k] for k in w}, {k: g[k] for k in w})
                    break
            run.validated(1, [s["o"] for s in c] if len(run.samples) < 4 else None)
            for s in c:
                run.note(s["o"])
            if bad:
                run.violation(f"{c[bad[0]]['o']} {json.dumps(c[bad[0]]['args'])}: the specification gives {str(bad[1])[:300]}, the collection {str(bad[2])[:300]}", {"history": q["ops"][:bad[0] + 1]})

CHECKS = {"F01": lambda run: selmaps(run, "F01"), "F02": lambda run: selmaps(run, "F02"), "W01": wrapping, "X01": ids, "X02": catalog, "R01": refs, "N01": lint, "I01": i01, "X03": x03}

NOTES = {
    "F01": (["spec/SelectionMap.tla"], "All token sequences up to a length, and walks through texts of up to 26 tokens, each in a random layout: the parser must accept exactly those with a reading in the grammar of the specification, and read the same tree. TLC checks that the grammar is unambiguous and closed under nesting."),
    "F02": (["spec/SelectionMap.tla"], "Every grammatical text of the same behaviours is parsed, printed and parsed again: trees and texts must agree. TLC checks on the specification that printing is inverse to reading."),
    "W01": (["spec/Wrapping.tla"], "Histories of operations on two types of up to ten lists: after every step, everything the type reports is compared with the stack of wrappers of the specification. The specification's state space of single types is exhausted (up to five lists in the quick tier, ten in the thorough one)."),
    "X01": (["spec/Ids.tla"], "Walks through texts, character by character: the specification's reading (or refusal) must be the implementation's, and printing must give the text back. TLC checks that names without dots make identifiers unambiguous."),
    "X02": (["spec/Catalog.tla"], "Histories of registrations and lookups with versions, pre-releases and requirements; each result and the size of the catalogue is compared with the specification."),
    "X03": (["spec/Manifest.tla"], "Every document one step from the minimal one (every value, wrong value, spelling, missing key) and random documents; what is read, what is written and what the manifest answers are compared. TLC checks that writing and reading are inverse and that spellings do not matter."),
    "R01": (["spec/GraphRef.tla"], "All texts up to a length over name characters and marks, in three spellings each."),
    "I01": (["spec/Collections.tla"], "Random histories of operations on two bit sets, a range under iteration, a relation and a map; everything that can be read is compared after each step. TLC checks the algebra of the sets and that slices and relations are inverse to their readings."),
    "N01": (["spec/Lint.tla"], "Random schemas of fourteen elements with names in ten styles; the set of diagnostics, with the suggested names, must be the specification's."),
}
