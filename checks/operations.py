"""K01-K03: operation checks."""
import json, random
from vlib import harness, tlc

INV = ["Sound", "SoundAll", "Quiet", "QuietWhenUnused", "Monotone", "AllCovers"]
OBJECTS, INTERFACES, INPUTS = ("Query", "Mutation", "A", "B", "C"), ("I", "J"), ("In", "In2")

class Renderer:
    """Texts of the schemas and operations of one behaviour. Names, order, spelling and formatting are drawn."""
    def __init__(self, rnd, case):
        self.rnd, self.case = rnd, case
        pool = ["Aa", "Ab", "B_b", "M", "Node", "Na", "Zed", "zed", "Z", "q", "x_1", "Y", "_T", "Qx", "Thing", "Things"]
        rnd.shuffle(pool)
        plain = rnd.random() < .3
        self.name = {n: n if plain else pool.pop() for n in ("A", "B", "C", "I", "J", "U", "E", "In", "In2")}
        self.mutation = rnd.choice(["mutation", "mutation", "subscription"])
        self.roots = rnd.random() < .3           # root types under other names
        self.name["Query"] = "RootQ" if self.roots else "Query"
        self.name["Mutation"] = "AnM" if self.roots else self.mutation.capitalize()
        fs = ["id", "f", "g", "i", "k", "j", "m", "q", "a", "b", "c", "x", "y", "e", "n", "z", "back"]
        gs = fs[:]
        if not plain:
            rnd.shuffle(gs)
        self.field = dict(zip(fs, gs))
    def n(self, x):
        return self.name.get(x, x)
    def f(self, x):
        return self.field.get(x, x)
    def type(self, t):
        s = self.n(t["b"]) + ("!" if t["nn"] else "")
        for nn in reversed(t["ls"]):
            s = "[" + s + "]" + ("!" if nn else "")
        return s
    # literals
    def leaf(self, b):
        return {"Int": "1", "String": '"s"', "E": "V1"}[b]
    def literal(self, s, t, e, full, depth=2):
        b = t["b"]
        if b == "E":
            v = e or "V1"
        elif b in INPUTS:
            fs = []
            for x in s["inputs"][b] if depth else []:
                if not (full or (outer(x["t"]) and not x["d"])):
                    continue
                if depth == 1 and x["t"]["b"] in INPUTS:
                    if not outer(x["t"]):
                        continue
                    v = "[]" if x["t"]["ls"] else "{}"
                else:
                    v = self.literal(s, x["t"], e, full, depth - 1)
                fs.append(f'{self.f(x["n"])}: {v}')
            self.rnd.shuffle(fs)
            v = "{" + ", ".join(fs) + "}"
        else:
            v = self.leaf(b)
        k = len(t["ls"]) if self.rnd.random() < .8 else self.rnd.randint(0, len(t["ls"]))      # list coercion
        return "[" * k + v + "]" * k
    def arg(self, s, a):
        d = ""
        if a["d"]:
            d = " = " + self.literal(s, a["t"], (sorted(s["e"]) or ["V1"])[0], False)
        return f'{self.f(a["n"])}: {self.type(a["t"])}{d}'
    def fields(self, s, fs):
        fs = list(fs)
        self.rnd.shuffle(fs)
        out = []
        for x in fs:
            args = list(x["args"])
            self.rnd.shuffle(args)
            out.append(self.f(x["n"]) + ("(" + ", ".join(self.arg(s, a) for a in args) + ")" if args else "") + ": " + self.type(x["t"]))
        return out
    def block(self, word, head, name, items, sep="\n  "):
        if len(items) > 1 and self.rnd.random() < .15:
            k = self.rnd.randint(1, len(items) - 1)
            return [f"{word} {name}{head} {{\n  " + sep.join(items[:k]) + "\n}", f"extend {word} {name} {{\n  " + sep.join(items[k:]) + "\n}"]
        return [f"{word} {name}{head} {{\n  " + sep.join(items) + "\n}"]
    def schema(self, s):
        parts = []
        for n, c in s["comp"].items():
            if not c["here"]:
                continue
            if n in s["flip"]:
                parts.append(f"scalar {self.n(n)}")
                continue
            impl = list(c["impl"])
            self.rnd.shuffle(impl)
            head = " implements " + " & ".join(self.n(i) for i in impl) if impl else ""
            items = self.fields(s, c["fields"]) or ["zz: Int"]
            parts += self.block("type" if n in OBJECTS else "interface", head, self.n(n), items)
        if s["u"]:
            ms = [self.n(m) for m in s["u"]]
            self.rnd.shuffle(ms)
            parts.append(f"scalar {self.n('U')}" if "U" in s["flip"] else f"union {self.n('U')} = " + " | ".join(ms))
        if s["e"]:
            vs = list(s["e"])
            self.rnd.shuffle(vs)
            parts += [f"scalar {self.n('E')}"] if "E" in s["flip"] else self.block("enum", "", self.n("E"), vs)
        for n, fs in s["inputs"].items():
            if fs:
                fs = list(fs)
                self.rnd.shuffle(fs)
                parts += [f"scalar {self.n(n)}"] if n in s["flip"] else self.block("input", "", self.n(n), [self.arg(s, x) for x in fs])
        if self.roots:
            parts.append(f"schema {{ query: {self.n('Query')}" + (f" {self.mutation}: {self.n('Mutation')}" if s["comp"]["Mutation"]["here"] else "") + " }")
        self.rnd.shuffle(parts)
        return "\n".join(parts) + "\n"
    # operations
    def op(self, s, o):
        self.vars, self.frags, self.shared = [], [], {}
        body = self.sel(s, "Mutation" if o["ty"] == "mutation" else "Query", o["sel"])
        ty = self.mutation if o["ty"] == "mutation" else "query"
        head = ty + (self.rnd.choice([" Op", ""]) if not self.vars else " Op")
        head += "(" + ", ".join(self.vars) + ")" if self.vars else ""
        if ty == "query" and head == "query" and self.rnd.random() < .5:
            head = ""
        parts = [f"{head} {{ {body} }}"] + self.frags
        self.rnd.shuffle(parts)
        return "\n".join(parts)
    def sel(self, s, p, sel):
        return " ".join(self.entry(s, p, x) for x in sel)
    def entry(self, s, p, x):
        if x["k"] != "field":
            q = x["on"] or p
            key = json.dumps([q, x["sel" if "sel" in x else "sub"]], sort_keys=True)
            if x["k"] == "spread":
                if key in self.shared and '"default"' not in key:
                    return f"...{self.shared[key]}"
                body = self.sel(s, q, x["sub"])
                name = f"F{len(self.frags)}"
                self.shared[key] = name
                self.frags.append(f"fragment {name} on {self.n(q)} {{ {body} }}")
                return f"...{name}"
            return "... " + (f"on {self.n(q)} " if x["on"] else "") + "{ " + self.sel(s, q, x["sub"]) + " }"
        if x["n"] == "__typename":
            return "__typename"
        f = next(y for y in s["comp"][p]["fields"] if y["n"] == x["n"])
        args = []
        for a in x["args"]:
            d = next(y for y in f["args"] if y["n"] == a["n"])
            v = a["v"]
            if v["how"] == "lit":
                val = self.literal(s, d["t"], v["e"], v["full"])
            else:
                val = f"$v{len(self.vars)}"
                self.vars.append(f"{val}: {self.type(d['t'])}" + (f" = {self.literal(s, d['t'], v['e'], v['full'])}" if v["how"] == "default" else ""))
            args.append(f'{self.f(a["n"])}: {val}')
        self.rnd.shuffle(args)
        alias = self.rnd.choice(["", "", "al: ", f"{self.f('id')}: "])
        return alias + self.f(x["n"]) + ("(" + ", ".join(args) + ")" if args else "") + (" { " + self.sel(s, f["t"]["b"], x["sub"]) + " }" if x["sub"] else "")
    def path(self, d):
        if d["f"].startswith("&"):
            return f'{self.n(d["p"])}.&{self.n(d["f"][1:])}'
        if d["k"] == "RemoveEnumValue":
            return f'{self.n("E")}.{d["f"]}'
        if d["k"] == "RemoveUnionMember":
            return f'{self.n("U")}.{self.n(d["f"])}'
        return ".".join([self.n(d["p"])] + [self.f(x) for x in (d["f"], d["a"]) if x])

def outer(t):
    return t["ls"][0] if t["ls"] else t["nn"]

def probe(s, u):
    """The source schema without what `u` uses, and the diagnostic that its removal must give while it is used."""
    t = json.loads(json.dumps(s))
    k, p, f, a = u
    if k == "field":
        t["comp"][p]["fields"] = [x for x in t["comp"][p]["fields"] if x["n"] != f]
        return t, {"p": p, "f": f, "a": "", "k": "RemoveField"}
    if k == "enum":
        t["e"] = [v for v in t["e"] if v != p]
        return (t, {"p": "E", "f": p, "a": "", "k": "RemoveEnumValue"}) if t["e"] else (None, None)
    if k == "arg":
        for x in t["comp"][p]["fields"]:
            if x["n"] == f:
                x["args"] = [y for y in x["args"] if y["n"] != a]
        return t, {"p": p, "f": f, "a": a, "k": "RemoveFieldArgument"}
    if k == "left":
        for x in t["comp"][p]["fields"]:
            for y in x["args"]:
                if (x["n"], y["n"]) == (f, a):
                    y["d"] = False
        return t, {"p": p, "f": f, "a": a, "k": "RemoveFieldArgumentDefault"}
    return None, None

def expected(r, ds):
    return sorted((r.path(d), d["k"], d["sev"]) for d in ds)

def run_all(run, which):
    q = run.quick
    rnd = random.Random(run.seed)
    n, batch = (4000, 4000) if q else (60000, 12000)
    for b in range(max(1, n // batch)):
        r = tlc.simulate_many("Operations", batch, 8, run.seed + 7 * b, depth=101, invariants=INV, timeout=1800)
        run.model("Operations", r)
        replay(run, which, r["cases"], rnd)

def replay(run, which, cases, rnd):
    reqs, meta = [], []
    for c in cases:
        rd = Renderer(rnd, c)
        s = c["src"]
        if which == "K03":
            uses = sorted((x["u"], x["n"]) for x in c["counts"])
            targets, checks, want = [], [], []
            for u, n in rnd.sample(uses, min(len(uses), 6)):
                t, d = probe(s, u)
                if t is None:
                    continue
                for th in (n, n + 1):
                    checks.append([len(targets), th])
                    want.append((u, n, th, rd.path(d), d["k"]))
                targets.append(rd.schema(t))
            targets.append(rd.schema(c["tgt"]))
            for e in c["expect"]:
                checks.append([len(targets) - 1, e["threshold"]])
                want.append(e)
        else:
            targets = [rd.schema(c["tgt"]), rd.schema(s)]
            checks, want = [[0, 1], [0, None], [1, 1], [1, None]], None
        reqs.append({"op": "opcheck", "source": rd.schema(s), "targets": targets, "ops": [{"text": rd.op(s, o), "count": o["count"]} for o in c["ops"]], "checks": checks})
        meta.append((c, rd, want))
    for (c, rd, want), rq, o in zip(meta, reqs, harness.run(reqs)):
        run.validated(1, {"operations": rq["ops"], "diagnostics": expected(rd, c["expect"][0]["diags"])} if run.traces % 400 == 3 else None)
        ctx = {"request": rq, "observed": o}
        if "results" not in o:
            run.violation(f"the check crashes: {o}", ctx)
            continue
        got = [[tuple(d) for d in r] for r in o["results"]]
        if which == "K03":
            for w, g in zip(want, got):
                if isinstance(w, tuple):
                    u, n, th, path, kind = w
                    run.note("counts probed")
                    present = (path, kind) in [(x[0], x[1]) for x in g]
                    if present != (th <= n):
                        run.violation(f"{u} is used {n} times, but with threshold {th} it counts as {'used' if present else 'unused'}", ctx)
                        break
                else:
                    e = expected(rd, w["diags"])
                    if sorted(g) != e:
                        run.violation(f"threshold {w['threshold']}: the diagnostics must be {e}, they are {sorted(g)}", ctx)
                        break
            continue
        for what, e, g in (("with the recorded operations", expected(rd, c["expect"][0]["diags"]), got[0]), ("with everything used", expected(rd, c["all"]), got[1]),
                           ("without any change", [], got[2]), ("without any change, everything used", [], got[3])):
            if which == "K01":
                run.note("diagnostics expected", len(e))
                lost = [d for d in e if d not in g]
                if lost:
                    run.violation(f"{what}, the check does not report {lost}", ctx)
                    break
            else:
                run.note("diagnostics given", len(g))
                extra = list(g)
                for d in e:
                    if d in extra:
                        extra.remove(d)
                if extra:
                    run.violation(f"{what}, the check reports {extra}", ctx)
                    break

CHECKS = {k: (lambda k: lambda run: run_all(run, k))(k) for k in ("K01", "K02", "K03")}
NOTES = {
    "K01": (["Operations"], "Random pairs of schemas with up to nine types and random histories of up to three operations; every diagnostic the specification derives must be reported, with the recorded operations and with everything used. The specification's own invariants relate its diagnostics to the validity of the operations on the target."),
    "K02": (["Operations"], "The same behaviours: nothing may be reported that the specification does not derive, and nothing at all between equal schemas."),
    "K03": (["Operations"], "The count of every used element is bracketed by two thresholds on a schema that removes it; the diagnostics of every threshold are compared."),
}
