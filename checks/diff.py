"""D01-D03: differences between schemas, and patches."""
import json, random, re
from vlib import harness, tlc

INV = ["Complete", "OnlyIfDifferent", "Symmetric"]
WORD = {"object": "type", "interface": "interface", "input": "input", "enum": "enum", "union": "union", "scalar": "scalar"}

class Text:
    """Renders a schema of Diff.tla, and remembers the text of every element and its decorations."""
    def __init__(self, rnd, schema, extend, decorate):
        self.rnd, self.decorate = rnd, decorate
        self.at = {}        # (n, f, a) or (n, "", "@") or (":schema", "", "") -> text the change span must hold
        self.types, self.defaults = {}, {}
        self.deco = {}      # same keys -> [description or None, directives]
        self.indefault = {}
        parts = []
        for n, t in schema["types"].items():
            if t["k"] != "absent":
                parts += self.type(n, t, extend)
        for d in schema["dirs"]:
            parts.append(self.directive(d))
        r = schema["roots"]
        if r["here"]:
            ops = [(o, r[o]) for o in ("query", "mutation", "subscription") if r[o]]
            rnd.shuffle(ops)
            dirs = self.dirs((":schema", "", ""))
            text = f"schema{dirs} {{ " + self.sep().join(f"{o}: {n}" for o, n in ops) + " }"
            self.at[(":schema", "", "")] = text
            parts.append(self.described((":schema", "", ""), text))
        exts = []
        for i in range(schema["exts"]):
            key = (f":schema[{i}]", "", "")
            text = "schema" + rnd.choice([" @x", " @x(a: 1) @y", " { subscription: S%d }" % i, " @y {\n mutation: M%d\n}" % i])
            self.at[key] = text
            exts.append("extend " + text)
        # the order of the extensions is their identity: it stays, between the shuffled rest
        rnd.shuffle(parts)
        at = sorted(rnd.randrange(len(parts) + 1) for _ in exts)
        for i, (p, x) in enumerate(zip(at, exts)):
            parts.insert(p + i, x)
        self.sdl = "\n".join(p if rnd.random() < .8 else "# comment { \n" + p for p in parts) + rnd.choice(["", "\n", "\n\n"])
    def sep(self):
        return self.rnd.choice([" ", ", ", "\n  ", " # c }\n "])
    def dirs(self, key, desc=True):
        """Directives; also draws the description."""
        d = x = None
        if self.decorate:
            if desc and self.rnd.random() < .3:
                d = self.rnd.choice(["words", "with \\\"quotes\\\"", "{ a: Int }", "é"])
            if self.rnd.random() < .3:
                x = self.rnd.choice([[("x", "")], [("x", "(a: 1, b: [\"}\"])")], [("y", ""), ("x", "(a: {b: E})")]])
        self.deco[key] = [d, x or []]
        return "".join(f" @{n}{a}" for n, a in (x or []))
    def described(self, key, text):
        d = self.deco[key][0]
        if d is None:
            return text
        return (f'"""{d}"""' if '"' not in d and self.rnd.random() < .4 else f'"{d}"') + self.rnd.choice([" ", "\n"]) + text
    def arg(self, n, f, a):
        key = (n, f, a["n"])
        dirs = self.dirs(key)
        d = f"= {a['d']}" if a["d"] else ""
        self.types[key], self.defaults[key] = a["t"], d
        s = self.described(key, f"{a['n']}: {a['t']}" + (" " + d if d else "") + dirs)
        self.at[key] = s
        return s
    def field(self, n, f, input):
        key = (n, f["n"], "")
        dirs = self.dirs(key)
        args = [self.arg(n, f["n"], a) for a in f["args"]]
        self.rnd.shuffle(args)
        s = f["n"] + ("(" + self.sep().join(args) + ")" if args else "") + f": {f['t']}"
        if f["d"]:
            s += f" = {f['d']}"
        self.indefault[key] = f["d"]
        self.types[key] = f["t"]
        s = self.described(key, s + dirs)
        self.at[key] = s
        return s
    def value(self, n, v):
        key = (n, v, "")
        dirs = self.dirs(key)
        s = self.described(key, v + dirs)
        self.at[key] = s
        return s
    def type(self, n, t, extend):
        items = ([self.field(n, f, t["k"] == "input") for f in t["fields"]] or [self.value(n, v) for v in t["vals"]] or list(t["members"]))
        for m in t["members"]:
            self.at[(n, m, "")] = m
        impl = list(t["impl"])
        self.rnd.shuffle(items)
        self.rnd.shuffle(impl)
        key = (n, "", "")
        dirs = self.dirs(key)
        def part(impl, dirs, items):
            s = f"{WORD[t['k']]} {n}" + (" implements " + (" & " if self.rnd.random() < .8 else "\n & ").join(impl) if impl else "") + dirs
            if items:
                s += " = " + " | ".join(items) if t["k"] == "union" else " {" + self.rnd.choice([" ", "\n  "]) + self.sep().join(items) + "\n}"
            return s
        if n in extend and self.rnd.random() < .25:
            # nothing but an extension
            body = part(impl, dirs or ("" if items or impl else " @x"), items)
            self.at[key] = body
            return ["extend " + body]
        if n in extend and len(items) + len(impl) > 1:
            i, j = self.rnd.randrange(len(items) + 1), self.rnd.randrange(len(impl) + 1)
            if i == len(items) and j == len(impl):
                i -= 1 if items else 0
                j -= 1 if not items else 0
            body = part(impl[:j], dirs, items[:i])
            self.at[key] = body
            return [self.described(key, body), "extend " + part(impl[j:], "", items[i:])]
        body = part(impl, dirs, items)
        self.at[key] = body
        return [self.described(key, body)]
    def directive(self, d):
        key = (d, "", "@")
        self.deco[key] = [None, []]
        body = f"directive @{d}" + self.rnd.choice(["", "(a: Int)", "(a: [E!] = [X], b: String)"]) + self.rnd.choice([" ", " repeatable "]) + "on " + self.rnd.choice(["OBJECT", "FIELD_DEFINITION | OBJECT"])
        self.at[key] = body
        if self.decorate and self.rnd.random() < .3:
            self.deco[key][0] = "words"
        return self.described(key, body)

def path(n, f, a):
    if a == "@":
        return n
    return n + ("." + f if f else "") + ("." + a if a else "")

def families(run):
    """Cases of Diff.tla: every pair of two catalogues, and random pairs."""
    cases = []
    for m in ("types", "roots"):
        r = tlc.tlc("Diff", constants={"Mode": m}, invariants=INV)
        run.model(f"Diff ({m})", r)
        rnd = random.Random(run.seed)
        cs = sorted(r["cases"], key=lambda c: json.dumps(c, sort_keys=True))
        n = {"types": 3000, "roots": 500}[m] if run.quick else len(cs)
        cases += rnd.sample(cs, min(n, len(cs)))
    r = tlc.simulate_many("Diff", 3500 if run.quick else 120000, 8, run.seed, depth=101, constants={"Mode": "random"}, invariants=INV)
    run.model("Diff (random)", r)
    cases += r["cases"]
    run.note("behaviours", len(cases))
    return cases

def rendered(run, cases, decorate=True, added=True):
    """`added`: also extend types that the other schema lacks."""
    rnd = random.Random(run.seed)
    for c in cases:
        def ext(side, other):
            # In what is patched, a type that only the target has is not extended: see the known findings of D02.
            return {n for n in c[side]["types"] if rnd.random() < .15 and (added or side == "src" or c[side]["types"][n]["k"] == c[other]["types"][n]["k"])}
        yield c, Text(rnd, c["src"], ext("src", "tgt"), decorate), Text(rnd, c["tgt"], ext("tgt", "src"), decorate)

def broken(run, c, rq, o):
    if "panic" in o or "crash" in o or "error" in o:
        run.violation(f"the schemas cannot be compared: {o}", {"request": rq, "observed": o})
        return True
    return False

def d01(run):
    cases = families(run)
    reqs, meta = [], []
    for c, a, b in rendered(run, cases):
        reqs += [{"op": "diff", "source": a.sdl, "target": b.sdl}, {"op": "diff", "source": b.sdl, "target": a.sdl}, {"op": "diff", "source": a.sdl, "target": a.sdl}]
        meta.append(c)
    out = harness.run(reqs)
    mirror = {}
    for x in ("ObjectType", "Interface", "InputObject", "Enum", "Union", "Scalar", "Field", "FieldArgument", "FieldArgumentDefault", "EnumValue", "UnionMember", "InterfaceImplementation", "DirectiveDefinition", "SchemaDefinition", "SchemaExtension"):
        mirror["Add" + x], mirror["Remove" + x] = "Remove" + x, "Add" + x
    for i, c in enumerate(meta):
        fwd = sorted((k, path(n, f, a)) for k, n, f, a in c["changes"])
        want = [fwd, sorted((mirror.get(k, k), p) for k, p in fwd), []]
        run.validated(1, {"changes": fwd, "source": reqs[3 * i]["source"], "target": reqs[3 * i]["target"]} if i % 977 == 5 and len(fwd) < 6 else None)
        for w, rq, o in zip(want, reqs[3 * i:3 * i + 3], out[3 * i:3 * i + 3]):
            if broken(run, c, rq, o):
                break
            got = sorted((x["kind"], x["path"]) for x in o["changes"])
            if got != w:
                run.violation(f"not reported: {[x for x in w if x not in got]}; reported without reason: {[x for x in got if x not in w]}; or repeated", {"request": rq, "observed": o, "expected": w})
                break

def shape(t, src):
    """What Diff.tla's schemas look like, read from a projected document (parts merged)."""
    types, dirs, roots = {}, set(), None
    for d in t["types"]:
        e = types.setdefault(d["name"], {"k": d["kind"], "impl": [], "fields": {}, "vals": {}, "members": [], "deco": [None, []], "parts": 0})
        e["parts"] += 1
        e["impl"] += d.get("implements", [])
        e["members"] += d.get("members", [])
        e["deco"] = [e["deco"][0] or d.get("desc"), e["deco"][1] + d["dirs"]]
        for f in d.get("fields", []):
            if f["name"] in e["fields"]:
                e["dup"] = f["name"]
            e["fields"][f["name"]] = f
        for v in d.get("values", []):
            if v["name"] in e["vals"]:
                e["dup"] = v["name"]
            e["vals"][v["name"]] = v
    return types

def d02(run):
    cases = families(run)
    reqs, meta = [], []
    for c, a, b in rendered(run, cases, added=False):
        reqs.append({"op": "diff", "source": a.sdl, "target": b.sdl, "patch": True})
        meta.append((c, a, b))
    # an added type with an extension
    extended = [("", "type A { f: Int }\nextend type A { g: Int }"), ("scalar A", "enum A { F }\nextend enum A { G }")]
    reqs += [{"op": "diff", "source": a, "target": b, "patch": True} for a, b in extended]
    # the decorations of the target and the source, read back by the same parser
    docs = harness.run([{"op": "sdl_full", "sdl": t.sdl} for _, a, b in meta for t in (a, b)])
    out = harness.run(reqs)
    for rq, o in list(zip(reqs, out))[len(meta):]:
        if "panic" in o or "error" in o.get("patched", {}) or o["patched"]["again"] != []:
            run.violation("patching loses the extensions of an added type", {"request": rq, "observed": o}, sig="added-type-extended")
    for i, (c, a, b) in enumerate(meta):
        o, rq = out[i], reqs[i]
        run.validated(1, {"source": a.sdl, "target": b.sdl} if i % 977 == 5 else None)
        if broken(run, c, rq, o):
            continue
        p = o["patched"]
        if "error" in p or "parse_error" in p["ast"]:
            run.violation(f"the patch is not a schema: {p.get('error') or p['ast']['parse_error']}", {"request": rq, "observed": o})
            continue
        why = compare(c, p, docs[2 * i], docs[2 * i + 1]) or empty_braces(p["text"])
        if why:
            run.violation(why, {"request": rq, "observed": o})
        elif p["again"]:
            run.violation(f"after patching there are still differences: {p['again']}", {"request": rq, "observed": o})

def empty_braces(text):
    """Braces with nothing in them are no GraphQL, though the parser lets them pass."""
    bare = re.sub(r'""".*?"""|"(\\.|[^"\\\n])*"|#[^\n]*', " ", text, flags=re.S)
    m = re.search(r"[\w)]\s*\{\s*\}", bare)
    return m and f"the patch has empty braces: {bare[max(0, m.start() - 60):m.end()]!r}"

def compare(c, p, sdoc, tdoc):
    P, S, T = (shape(x, None) for x in (p["ast"], sdoc, tdoc))
    tgt = c["tgt"]
    want = {n for n, t in tgt["types"].items() if t["k"] != "absent"}
    if set(P) != want:
        return f"types after patching: {sorted(P)}, in the target: {sorted(want)}"
    for n in want:
        t, g = tgt["types"][n], P[n]
        kept = n in S and S[n]["k"] == t["k"]
        if "dup" in g:
            return f"{n}.{g['dup']} is there twice"
        if g["k"] != t["k"] or sorted(g["impl"]) != sorted(t["impl"]) or sorted(g["members"]) != sorted(t["members"]):
            return f"{n} is {g['k']} implementing {g['impl']} with members {g['members']}, target: {t}"
        if set(g["vals"]) != set(t["vals"]) or set(g["fields"]) != {f["n"] for f in t["fields"]}:
            return f"{n} has {sorted(g['vals']) + sorted(g['fields'])}, target: {t}"
        if kept and g["deco"] != S[n]["deco"] or not kept and g["deco"][1] != T[n]["deco"][1]:
            return f"description or directives of {n}: {g['deco']}, source {S.get(n, {}).get('deco')}, target {T[n]['deco']}"
        for v in g["vals"]:
            origin = S[n]["vals"].get(v) if kept else None
            if g["vals"][v] != (origin or T[n]["vals"][v]):
                return f"{n}.{v} is {g['vals'][v]}, expected {origin or T[n]['vals'][v]}"
        for f in g["fields"]:
            origin = S[n]["fields"].get(f) if kept else None
            e = dict(origin or T[n]["fields"][f])
            e["type"] = T[n]["fields"][f]["type"]
            got = dict(g["fields"][f])
            ea = {x["name"]: x for x in e.pop("args", [])}
            ga = {x["name"]: x for x in got.pop("args", [])}
            if got != e:
                return f"{n}.{f} is {got}, expected {e}"
            ta = {x["name"]: x for x in T[n]["fields"][f].get("args", [])}
            if len(g["fields"][f].get("args", [])) != len(ga) or set(ga) != set(ta):
                return f"{n}.{f} has the arguments {g['fields'][f].get('args')}, target {sorted(ta)}"
            for x in ga:
                w = dict(ea.get(x) or ta[x])
                w["type"] = ta[x]["type"]
                w.pop("default", None)
                if "default" in ta[x]:
                    w["default"] = ta[x]["default"]
                if ga[x] != w:
                    return f"argument {n}.{f}({x}) is {ga[x]}, expected {w}"
    def ops(doc):
        return [(d["ext"], d["dirs"], d["roots"], d.get("desc")) for d in doc["schema"]]
    gs, ss, ts = ([x for x in ops(d) if not x[0]] for d in (p["ast"], sdoc, tdoc))
    ge, se, te = ([x[1:3] for x in ops(d) if x[0]] for d in (p["ast"], sdoc, tdoc))
    key = lambda x: json.dumps(x, sort_keys=True)
    if sorted(ge, key=key) != sorted(se[:len(te)] + te[len(se):], key=key):
        return f"schema extensions are {ge}, source {se}, target {te}"
    if len(gs) != len(ts) or gs and (gs[0][2] != ts[0][2] or gs[0][1] != (ss or ts)[0][1] or ss and gs[0][3] != ss[0][3]):
        return f"schema definition is {gs}, source {ss}, target {ts}"
    names = lambda doc: {d["name"]: {k: v for k, v in d.items()} for d in doc["directives"]}
    gd, sd, td = names(p["ast"]), names(sdoc), names(tdoc)
    for d in gd:
        if d not in sd:
            gd[d].pop("desc", None)
    want = {d: sd[d] if d in sd else {k: v for k, v in td[d].items() if k != "desc"} for d in td}
    if gd != want:
        return f"directive definitions are {gd}, expected {want}"
    return None

# ---------------------------------------------------------------- D03
def span_text(c, k, n, f, a, src, tgt):
    key = (n, f, a)
    if k.startswith("Add"):
        if k == "AddFieldArgumentDefault":
            return tgt.defaults[key]
        return "" if k == "AddInterfaceImplementation" else tgt.at[key]
    if k == "ChangeFieldArgumentDefault":
        return tgt.defaults[key]
    if k in ("ChangeFieldType", "ChangeFieldArgumentType"):
        return tgt.types[key]
    if k.startswith("Change"):
        return c["tgt"]["roots"][{"ChangeQueryType": "query", "ChangeMutationType": "mutation", "ChangeSubscriptionType": "subscription"}[k]]
    if k in ("RemoveObjectType", "RemoveInterface", "RemoveInputObject", "RemoveEnum", "RemoveUnion", "RemoveScalar", "RemoveDirectiveDefinition", "RemoveSchemaExtension"):
        return src.at[key]
    return ""

def d03(run):
    cases = families(run)
    reqs, meta = [], []
    for c, a, b in rendered(run, cases):
        reqs.append({"op": "diff", "source": a.sdl, "target": b.sdl})
        meta.append((c, a, b))
    for (c, a, b), rq, o in zip(meta, reqs, harness.run(reqs)):
        run.validated(1)
        if broken(run, c, rq, o):
            continue
        by = {}
        for x in o["changes"]:
            if (x["kind"], x["path"]) in by:
                run.violation(f"two changes of one kind at one path: {x['kind']} {x['path']}", {"request": rq, "observed": o})
            by[(x["kind"], x["path"])] = x
            if x["path_back"] != x["path"]:
                run.violation(f"path {x['path']} reads back as {x['path_back']}", {"request": rq, "observed": o})
            if x["kind_back"] is not True:
                run.violation(f"kind {x['kind']} does not read back as itself", {"request": rq, "observed": o})
        for k, n, f, m in c["changes"]:
            x = by.get((k, path(n, f, m)))
            if x is None:
                continue        # D01
            w = span_text(c, k, n, f, m, a, b)
            if not re.fullmatch(re.escape(w) + r"(\s|,|#[^\n]*)*", x["text"]):
                run.violation(f"{k} {x['path']}: the span holds {x['text']!r} instead of {w!r}", {"request": rq, "observed": o})
                break
            if w and len(run.samples) < 4:
                run.validated(0, {"change": [k, x["path"]], "span": x["text"]})
    # the grammar of paths
    sym = {"S": ":schema", "I": "[12]", "E": "é"}
    for alphabet, n in (({"S", "a", "7", ".", "@", "&", "[", "]", "E", "+"}, 4 if run.quick else 5), ({"a", ".", "@", "&", "I"}, 7), ({"S", "a", "I", ".", "@", "[", "]", "7"}, 5 if run.quick else 6)):
        r = tlc.tlc("SchemaPath", constants={"Alphabet": alphabet, "MaxLen": n}, invariants=["Unambiguous", "Joined"])
        run.model("SchemaPath", r)
        strings = ["".join(sym.get(x, x) for x in c["s"]) for c in r["cases"]]
        step = 20000
        got = []
        for k in harness.run([{"op": "schema_path", "paths": strings[i:i + step]} for i in range(0, len(strings), step)]):
            if "paths" not in k:
                run.violation(f"parsing paths fails: {k}", {})
                return
            got += k["paths"]
        for c, s, g in zip(r["cases"], strings, got):
            run.traces += 1
            if g is not None and "panic" in g:
                run.violation(f"parsing the path {s!r} panics", {"path": s})
            elif g is None and c["what"] != "invalid" or g is not None and (g["what"] != c["what"] or not g["again"]):
                run.violation(f"the path {s!r} is {c['what']}, read as {g}", {"path": s})
            elif g is not None and g["display"] != "".join(str(int(x)) if x.isdigit() and p.endswith("[") else x for p, x in pieces(s)):
                run.violation(f"the path {s!r} is written back as {g['display']!r}", {"path": s})

def pieces(s):
    """Cuts s into runs of digits and the rest, each with what precedes it."""
    out, prev, i = [], "", 0
    while i < len(s):
        j = i + 1
        if s[i].isdigit():
            while j < len(s) and s[j].isdigit():
                j += 1
        out.append((prev, s[i:j]))
        prev = s[i:j]
        i = j
    return out

CHECKS = {"D01": d01, "D02": d02, "D03": d03}
NOTES = {
    "D01": (["Diff"], "Every pair of the catalogues and random pairs; the changes of each pair, of the swapped pair and of the schema with itself are compared with the specification's."),
    "D02": (["Diff"], "The patched text is parsed and compared with the target for everything the diff covers, and with the source for the rest; the specification proves on the same pairs that its changes are enough to rebuild the target."),
    "D03": (["Diff", "SchemaPath"], "The text under each change's span is compared with the text of the element in the rendered schemas; all strings up to the given lengths over the path alphabet are parsed."),
}
