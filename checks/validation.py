"""V01, V02: validity of schema documents."""
import json, random
from vlib import harness, tlc

INV = ["ExtensionsAreSyntax", "Substitutable", "Inhabited", "Rooted"]
WORD = {"object": "type", "interface": "interface", "input": "input", "enum": "enum", "union": "union", "scalar": "scalar"}
POOL = ["User", "Node", "_Entity", "T1", "query", "type", "input", "Interface", "Int2", "on", "Être"[1:], "A_b", "zZ", "Schema", "enum", "FloatX"]

class Text:
    """Renders a document of Validation.tla: definitions and extensions in any order, any layout."""
    def __init__(self, rnd, c):
        self.rnd, self.c = rnd, c
        names = rnd.sample(POOL, 7)
        self.names = {t: (names[i] if rnd.random() < .5 else t) for i, t in enumerate("ABCDEFG")}
        self.els = {}
        for x in c["els"]:
            self.els.setdefault(("arg", x["f"]) if x["e"] == "arg" else (x["t"], x["p"], x["e"]), []).append(x)
        parts = []
        for t, ps in c["part"].items():
            for p, k in (ps.items() if isinstance(ps, dict) else enumerate(ps)):
                if k != "none":
                    parts.append(self.type(t, int(p), k))
        for t in c["dupe"]:
            k = self.at(c["part"][t], 0)
            w = rnd.choice(["scalar", WORD[k]])
            parts.append(f"{w} {self.n(t)}" + {"enum": " { U }", "union": " = " + self.n(t), "scalar": ""}.get(w, " { u: Int }"))
        for d in c["dd"]:
            if d["on"]:
                for i in range(2 if d["dup"] else 1):
                    parts.append(self.directive(d))
        for s in c["sch"]:
            ops = [f"{o}: {self.n(s[k])}" for k, o in (("q", "query"), ("m", "mutation"), ("s", "subscription")) if s[k] != "none"]
            rnd.shuffle(ops)
            parts.append(("extend " if s["ext"] else "") + "schema" + self.dirs(s["ds"]) + (" { " + self.sep().join(ops) + " }" if ops else ""))
        rnd.shuffle(parts)
        self.sdl = "\n".join(p if rnd.random() < .85 else "# type Commented { \n" + p for p in parts) + rnd.choice(["", "\n", "\n\n"])
    @staticmethod
    def at(x, i):
        return x[str(i)] if isinstance(x, dict) else x[i]
    def n(self, t):
        return self.names.get(t, t)
    def sep(self):
        return self.rnd.choice([" ", ", ", "\n  ", " # c }\n "])
    def described(self, s, ext=False):
        if ext or self.rnd.random() < .85:
            return s
        return self.rnd.choice(['"words" ', '"""\nblock { type A }\n"""\n', '"\\" quoted" ']) + s
    def dirs(self, ds):
        out = [f" @{self.dname(d)}" for d, on in zip(self.c["dd"], ds) if on]
        self.rnd.shuffle(out)
        return "".join(out)
    def dname(self, d):
        return "__d" if d["n"] == 3 else f"d{d['n']}"
    def ty(self, b, w):
        s = self.n(b)
        for x in w:
            s = s + "!" if x == "N" else f"[{s}]"
        return s
    def default(self, x):
        if not x["dv"]:
            return ""
        w = list(x["w"])
        if not w or w[-1] != "N":
            return " = null"
        if "L" in w[-2:]:
            return " = []"
        k = self.at(self.c["part"].get(x["b"], ["none"] * 3), 0)
        return " = " + {"enum": "V", "input": "{}"}.get(k, "1")
    def items(self, xs, f):
        xs = [f(x) for x in xs]
        self.rnd.shuffle(xs)
        return xs
    def input(self, x):
        dep = " @deprecated" + self.rnd.choice(["", '(reason: "old")']) if x["dep"] else ""
        return self.described(f"{x['n']}: {self.ty(x['b'], x['w'])}" + self.default(x) + dep + self.dirs(x["ds"]))
    def field(self, x, k):
        if k == "input":
            return self.input(x)
        args = self.items(self.els.get(("arg", x["id"]), []), self.input)
        return self.described(x["n"] + ("(" + self.sep().join(args) + ")" if args else "") + f": {self.ty(x['b'], x['w'])}" + self.dirs(x["ds"]))
    def type(self, t, p, k):
        impl = self.items(self.els.get((t, p, "impl"), []), lambda x: self.n(x["n"]))
        s = f"{WORD[k]} {self.n(t)}"
        if impl:
            s += " implements " + self.rnd.choice(["", "", "& "]) + self.rnd.choice([" & ", "&", "\n  & "]).join(impl)
        s += self.dirs(self.at(self.c["tds"][t], p))
        if k == "union":
            ms = self.items(self.els.get((t, p, "member"), []), lambda x: self.n(x["n"]))
            if ms:
                s += " = " + self.rnd.choice(["", "", "| "]) + self.rnd.choice([" | ", "|", "\n  | "]).join(ms)
        elif k == "enum":
            vs = self.items(self.els.get((t, p, "value"), []), lambda x: self.described(x["n"] + self.dirs(x["ds"])))
            if vs:
                s += " {" + self.rnd.choice([" ", "\n  "]) + self.sep().join(vs) + "\n}"
        elif k != "scalar":
            fs = self.items(self.els.get((t, p, "field"), []), lambda x: self.field(x, k))
            if fs:
                s += " {" + self.rnd.choice([" ", "\n  "]) + self.sep().join(fs) + "\n}"
        return ("extend " if p else "") + s if p else self.described(s)
    def directive(self, d):
        args = [f"{a['n']}: {self.ty(a['b'], a['w'])}" + self.dirs(a["ds"]) for a in d["args"]]
        locs = list(d["locs"]) + self.rnd.sample(["QUERY", "FIELD", "VARIABLE_DEFINITION"], self.rnd.randrange(3))
        self.rnd.shuffle(locs)
        return self.described(f"directive @{self.dname(d)}" + ("(" + self.sep().join(args) + ")" if args else "") + self.rnd.choice([" ", " repeatable "]) + "on " + " | ".join(locs))

def run_all(run, which):
    n, batch = (9000, 9000) if run.quick else (400000, 40000)
    rnd = random.Random(run.seed)
    for b in range(max(1, n // batch)):
        r = tlc.simulate_many("Validation", batch, 8, run.seed + 11 * b, depth=201, invariants=INV, timeout=1800)
        run.model("Validation", r)
        replay(run, which, r["cases"], rnd)

def replay(run, which, cases, rnd):
    reqs, meta = [], []
    cases = [c for c in cases if c["els"] or c["sch"] or any(k != "none" for ps in c["part"].values() for k in (ps.values() if isinstance(ps, dict) else ps)) or any(d["on"] for d in c["dd"])]
    for c in cases:
        reqs.append({"op": "validate", "sdl": Text(rnd, c).sdl, "forbid": c["strict"], "draft": c["draft"]})
        meta.append(c)
    for c, rq, o in zip(meta, reqs, harness.run(reqs)):
        case = {"request": rq, "observed": o, "broken": c["broken"], "verdict": c["verdict"]}
        if "errors" not in o:
            if which == "V02":
                run.violation(f"validation of a document crashes: {o}", case)
            continue
        if which == "V01":
            bad = c["verdict"] == "invalid"
            run.validated(int(bad), {"sdl": rq["sdl"], "breaks": sorted(c["broken"]), "reported": o["errors"][:2]} if bad and run.traces % 600 == 7 else None)
            if c["verdict"] == "invalid" and not o["errors"]:
                run.violation(f"a document that breaks {', '.join(sorted(c['broken']))} is accepted", case)
        else:
            run.validated(int(c["verdict"] == "valid"), {"sdl": rq["sdl"]} if c["verdict"] == "valid" and run.traces % 600 == 7 else None)
            if c["verdict"] == "valid" and o["errors"]:
                run.violation(f"a valid document is rejected: {o['errors'][0]}", case)
            elif any(e.startswith("Syntax error") for e in o["errors"]) and c["verdict"] != "invalid":
                run.violation(f"a document is taken for a syntax error: {o['errors'][0]}", case)
    for v in ("valid", "invalid", "open"):
        run.note(v, sum(c["verdict"] == v for c in cases))
    for c in cases:
        for b in c["broken"]:
            run.note("breaks " + b, 1)

CHECKS = {k: (lambda run, k=k: run_all(run, k)) for k in ("V01", "V02")}
NOTES = {
    "V01": (["spec/Validation.tla"], "Random walks over valid documents of Validation.tla; every neighbour that breaks a rule is rendered and given to the validator, which must report an error. The walk starts from nothing, from a hierarchy of interfaces or from input types; up to 11 type names with two extensions each. TLC checks that validity does not depend on extensions, that implementers can stand for their interfaces, and that input types are inhabited."),
    "V02": (["spec/Validation.tla"], "The valid documents of the walks of Validation.tla are rendered in random layouts and orders and must be accepted without diagnostics, under both settings of both options; no document may crash the validator."),
}
