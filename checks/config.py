"""G01-G04: gateway configuration files."""
import json, random, shutil, tempfile
from vlib import harness, tlc

class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vh-config-")
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
    def run(self, reqs, env=None):
        return harness.run(reqs, extra=dict(env or {}, VHARNESS_SCRATCH=self.dir), cwd=self.dir)

# ------------------------------------------------------------------ G01: template expressions
TEXT = {"{": "{", "}": "}", ".": ".", "env": "env", "v": "VH_A", "w": "vh_a", "o": "Vh0", "n": "VHN", "b": "VHB", "u": "VHU_", "1": "1", "é": "é"}
WS = ["", " ", " ", "  ", "\t", "\n", " \r\n ", "\u2003"]
DASH = ["-", "$", "#", "\"", "\\", "'", ":", "$VH_A", "%", "(", "/", "|"]
NAMES = [("v",), ("w",), ("o",), ("n",), ("b",), ("env",), ("v", "1")]
VALUES = {("v",): "{{ env.vh_a }}", ("w",): "vh_a- \\$1 ${x} vh_a", ("o",): "", ("n",): "éVH_A", ("env",): "}}", ("v", "1"): "{{ "}
ENV = {"".join(TEXT[t] for t in n): VALUES[n] for n in NAMES if n != ("b",)}
# {"VHB": bytes that are no UTF-8}
BYTES = {b"VHB": b"\xff\xfe"}

def g01(run):
    rnd = random.Random(run.seed)
    cs = dict(Alphabet={"{", "}", ".", "s", "env", "w", "-"}, MaxLen=5 if run.quick else 7)
    inv = ["Verbatim", "Local", "Compositional"]
    with Scratch() as sc:
        r = tlc.tlc("Template", constants=cs, invariants=inv, init="InitAll", next_="NextAll", timeout=3000)
        run.model("Template (all short texts)", r)
        g01_replay(run, sc, r["cases"], rnd)
        for b in range(1 if run.quick else 12):
            r = tlc.simulate_many("Template", 24000 if run.quick else 60000, 8, run.seed + 17 * b, depth=301, constants=cs, invariants=inv, timeout=1800)
            run.model("Template", r)
            g01_replay(run, sc, r["cases"], rnd)

def toml_str(s):
    return json.dumps(s).replace("\x7f", "\\u007f")

def g01_replay(run, sc, cases, rnd):
    env = dict(ENV)
    env.update({k.decode(): v for k, v in BYTES.items()})
    reqs, want = [], []
    for c in cases:
        # white space next to a brace or a name may be missing; the scanner cannot tell
        parts = [rnd.choice(WS) if t == "s" else rnd.choice(DASH) if t == "-" else TEXT[t] for t in c["toks"]]
        # an absent white space must not glue two pieces into another token
        for i, t in enumerate(c["toks"]):
            if t == "s" and parts[i] == "" and not glue_ok(c["toks"], i):
                parts[i] = rnd.choice(WS[1:])
        text = "".join(parts)
        out = "".join(parts[p["i"] - 1] if p["i"] else VALUES[tuple(p["n"])] for p in c["pieces"]) if c["ok"] else None
        reqs.append({"op": "dynamic", "text": text})
        want.append((c, text, out))
    for (c, text, out), o in zip(want, sc.run(reqs, env)):
        run.validated(1, {"text": text, "expanded": out} if run.traces % 4999 == 5 else None)
        run.note("expanded" if c["ok"] and any(not p["i"] for p in c["pieces"]) else "plain text" if c["ok"] else "refused")
        case = {"text": text, "environment": {**ENV, "VHB": "(not UTF-8)"}, "expected": out, "observed": o}
        if "panic" in o:
            run.violation(f"expanding {text!r} crashes: {o['panic']}", case)
            continue
        judge(run, "string", text, out, o["plain"], case)
        ascii_out = out if out is not None and all(ord(ch) < 128 for ch in text + out) else None
        if out is not None and ascii_out is None and "ok" in o["ascii"] and all(ord(ch) < 128 for ch in out):
            ascii_out = out
        judge(run, "ASCII string", text, ascii_out, o["ascii"], case)
    # the same strings in a configuration file, wherever a string may stand
    pick = [x for x in want if rnd.random() < 0.12]
    reqs, places = [], []
    for c, text, out in pick:
        place = rnd.choice(["service", "table", "array", "deep", "key", "two"])
        t = toml_str(text)
        files = {"service": f"[telemetry]\nservice_name = {t}\n",
                 "table": f"[extensions.ex.config]\na = {t}\nb = 1\n",
                 "array": f"[extensions.ex.config]\na = [\"x\", {t}, 3]\n",
                 "deep": f"[extensions.ex.config]\na = [{{ b = [[{t}]] }}]\n",
                 "key": f"[extensions.ex.config]\n{t} = \"kept\"\n",
                 "two": f"[graph]\npath = \"/x\"\n[extensions.ex.config]\na = \"ok\"\nb = {t}\nc = {{ d = \"{{{{ env.vh_a }}}}\" }}\n"}
        reqs.append({"op": "config", "files": {"{DIR}/g.toml": files[place]}, "path": "{DIR}/g.toml"})
        places.append((place, c, text, out, files[place]))
    for (place, c, text, out, file), o in zip(places, sc.run(reqs, env)):
        run.validated(1)
        run.note(f"in a file: {place}")
        case = {"file": file, "environment": {**ENV, "VHB": "(not UTF-8)"}, "expected": out, "observed": o}
        if "panic" in o:
            run.violation(f"loading crashes: {o['panic']}", case)
            continue
        if place == "key":
            if "error" in o or o["config"].get("extensions.ex.config") != {text: "kept"}:
                run.violation(f"the key {text!r} is not kept as written", case)
            continue
        if out is None:
            where = {"service": "telemetry.service_name", "table": "extensions.ex.config.a", "array": "extensions.ex.config.a.[1]",
                     "deep": "extensions.ex.config.a.[0]b.[0][0]", "two": "extensions.ex.config.b"}[place]
            if "error" not in o:
                run.violation(f"a file with {text!r} is accepted", case)
            elif where.replace(".[", "[") not in o["error"].replace(".[", "["):
                run.violation(f"the error does not say where the expression stands ({where}): {o['error']}", case)
            continue
        w = {"service": ("telemetry.service_name", out), "table": ("extensions.ex.config", {"a": out, "b": 1}),
             "array": ("extensions.ex.config", {"a": ["x", out, 3]}), "deep": ("extensions.ex.config", {"a": [{"b": [[out]]}]}),
             "two": ("extensions.ex.config", {"a": "ok", "b": out, "c": {"d": VALUES[("w",)]}})}[place]
        if "config" not in o or o["config"].get(w[0]) != w[1]:
            run.violation(f"{w[0]} is {o.get('config', {}).get(w[0], o)!r}, not {w[1]!r}", case)

def glue_ok(toks, i):
    l = toks[i - 1] if i else None
    r = toks[i + 1] if i + 1 < len(toks) else None
    if l == "s" or r == "s":
        return False
    names = ("env", "v", "w", "o", "n", "b", "u", "1", ".")
    return not (l in names and r in names) and not (l == r and l in ("{", "}")) and l is not None and r is not None

def judge(run, what, text, out, got, case):
    if out is None and "error" not in got:
        run.violation(f"the {what} {text!r} is accepted as {got['ok']!r}", case)
    elif out is not None and got.get("ok") != out:
        run.violation(f"the {what} {text!r} is read as {got!r}, not as {out!r}", case)

CHECKS = {"G01": g01}
NOTES = {
    "G01": ("Template", "Template expressions in configuration strings: scanner and environment as a specification over token sequences; all texts up to "
            "five (thorough: seven) tokens over seven kinds of tokens and random texts of fragments are expanded by the real code, as plain and ASCII strings "
            "and in configuration files"),
}

# ------------------------------------------------------------------ G02: paths
def g02(run):
    rnd = random.Random(run.seed)
    with Scratch() as sc:
        r = tlc.tlc("Paths", constants=dict(Steps=6), invariants=["Anchored"], init="InitAll", next_="NextAll", timeout=800)
        run.model("Paths (one setting)", r)
        g02_replay(run, sc, r["cases"], rnd)
        for b in range(1 if run.quick else 10):
            r = tlc.simulate_many("Paths", 40000 if run.quick else 100000, 8, run.seed + 11 * b, depth=401, constants=dict(Steps=6), invariants=["Anchored"], timeout=800)
            run.model("Paths", r)
            g02_replay(run, sc, r["cases"], rnd)

def g02_replay(run, sc, cases, rnd):
    reqs = []
    def spell(x, root):
        """A path of the model, spelled for the loader or the file; ROOT is the case's own directory."""
        if x["abs"]:
            p = x["p"]
            return root + "".join("/" + c for c in p[1:]) if p and p[0] == "ROOT" else "/" + "/".join(p)
        return "/".join(x["p"]) or "."
    for c in cases:
        tables = {}
        for s in c["sets"]:
            if s["kind"] == "schema":
                tables.setdefault(f"subgraphs.{s['name']}", []).append(f"schema_path = {toml_str(spell(s['path'], '{DIR}'))}")
            elif s["kind"] == "wasm":
                tables.setdefault("wasm", []).append(f"cache_path = {toml_str(spell(s['path'], '{DIR}'))}")
            elif s["kind"] == "extension":
                tables.setdefault(f"extensions.{s['name']}", []).append(f"path = {toml_str(spell(s['path'], '{DIR}'))}")
            elif s["kind"] == "no path":
                tables.setdefault(f"extensions.{s['name']}", []).append('version = "1.2"')
            else:
                tables.setdefault("extensions", []).append(f"{s['name']} = \"1.2\"")
        # `[extensions]` before its sub-tables
        keys = sorted(tables, key=lambda k: (k.split(".")[0], "." in k, rnd.random()))
        text = "\n".join(f"[{k}]\n" + "\n".join(tables[k]) for k in keys) + "\n"
        f = c["file"]
        # the file lies at the resolved place (.. of the model's paths never leaves the case's directory there)
        real = lexical(c["place"][1:])
        files = {"{DIR}/" + "/".join(real): text} if f["how"] != "nothing" else {"{DIR}/" + "/".join(real[:-1] + ["other.toml"]): text}
        for i in range(1, len(c["place"])):
            d = lexical(c["place"][1:i])
            files["{DIR}/" + "/".join(d + [".keep"])] = ""
        req = {"op": "config", "files": files}
        cd = f["cd"][0] if f["cd"] else None
        if cd:
            req["current_dir"] = spell(cd, "{DIR}") if cd["abs"] else "{REL}/" + spell(cd, "")
            for d in dirs_of(cd["p"][1:] if cd["abs"] else cd["p"]):
                files["{DIR}/" + "/".join(d + [".keep"])] = ""
        if f["how"] == "named":
            at = f["at"]
            req["path"] = spell(at, "{DIR}") if at["abs"] or cd else "{REL}/" + spell(at, "")
            for d in dirs_of((at["p"][1:] if at["abs"] else at["p"])[:-1]):
                files["{DIR}/" + "/".join(d + [".keep"])] = ""
        reqs.append(req)
    for c, q, o in zip(cases, reqs, sc.run(reqs)):
        f = c["file"]
        run.validated(1, {"file": f, "settings": c["sets"], "read": c["read"]} if run.traces % 999 == 5 else None)
        run.note(f"{f['how']}, {'absolute' if f['at']['abs'] else 'relative'}, current directory {'given' if f['cd'] else 'of the process'}")
        case = {"request": q, "expected": {"file": c["place"], "paths": c["read"]}, "observed": o}
        if "panic" in o:
            run.violation(f"loading crashes: {o['panic'][:200]}", case)
        elif f["how"] == "nothing":
            if "none" not in o:
                run.violation("a configuration is found where there is none", case)
        elif "config" not in o:
            run.violation(f"the file is not loaded: {o}", case)
        else:
            g, root = o["config"], o["config"]["scratch"]
            if comps(g.get("#path"), root) != c["place"]:
                run.violation(f"the file's path is {g.get('#path')}, not {c['place']}", case)
            for s, w in zip(c["sets"], c["read"]):
                key = {"schema": f"subgraphs.{s['name']}.schema_path", "wasm": "wasm.cache_path"}.get(s["kind"], f"extensions.{s['name']}.path")
                got = comps(g.get(key), root) if g.get(key) is not None else []
                if got != w:
                    run.violation(f"{key} = {s['path']} is read as {g.get(key)}, not as {w}", case)

def lexical(cs):
    out = []
    for c in cs:
        if c == "..":
            out.pop()
        elif c != ".":
            out.append(c)
    return out

def dirs_of(cs):
    """Every directory a path passes through, '..' undone."""
    return [lexical(cs[:i]) for i in range(1, len(cs) + 1)]

def comps(p, root):
    if p is None or not p.startswith("/"):
        return ["relative", p]
    if p == root or p.startswith(root + "/"):
        cs = ["ROOT"] + p[len(root):].split("/")
    else:
        cs = p.split("/")
    return [c for c in cs if c not in ("", ".")]

CHECKS["G02"] = g02
NOTES["G02"] = ("Paths", "Path resolution as a specification over component sequences: every way to name the file (absolute, relative, default; the process's "
                "current directory or a given one) with every kind of path setting exhaustively, and random files with several settings, loaded by the real code")

# ------------------------------------------------------------------ G03: telemetry
NANOS = {"3s": 3_000, "90s": 90_000, "1m": 60_000, "250ms": 250, "60s": 60_000, "7s": 7_000, "5s": 5_000}
HEADERS = {"h1": {"one": "1"}, "h2": {"two": "2"}, "h1+h2": {"one": "1b", "two": "2b"}, "none": {}}
def nanos(t):
    return str(NANOS[t] * 1_000_000)

def g03(run):
    rnd = random.Random(run.seed)
    inv = ["Independent", "Local", "Global"]
    with Scratch() as sc:
        r = tlc.tlc("Telemetry", constants=dict(Steps=22), invariants=inv, init="InitAll", next_="NextAll", timeout=800)
        run.model("Telemetry (all switches)", r)
        g03_replay(run, sc, r["cases"], rnd)
        for b in range(1 if run.quick else 10):
            r = tlc.simulate_many("Telemetry", 20000 if run.quick else 60000, 8, run.seed + 11 * b, depth=401, constants=dict(Steps=22), invariants=inv, timeout=1200)
            run.model("Telemetry", r)
            g03_replay(run, sc, r["cases"], rnd)

def tele_key(k, v, exporter):
    """One setting as a dotted TOML key."""
    if k == "batch/":
        return "batch_export = {}"
    if k in ("grpc/", "http/"):
        return f"{k[:-1]} = {{}}"
    path = k.replace("batch/", "batch_export/").replace("/", ".")
    if k.endswith("headers"):
        return f"{path} = {{ " + ", ".join(f'{a} = "{b}"' for a, b in HEADERS[v].items()) + " }"
    if k == "enabled" or k.startswith("batch/max"):
        return f"{path} = {v}"
    return f'{path} = "{v}"'

def tele_toml(doc, rnd):
    out = []
    for scope in doc:
        for ex in ("stdout", "otlp"):
            s = doc[scope][ex]
            if not s["present"]:
                continue
            name = {"global": f"telemetry.exporters.{ex}", "grafbase": "telemetry.grafbase"}.get(scope, f"telemetry.{scope}.exporters.{ex}")
            kv = [(k, v) for k, v in s["set"]]
            # an empty table is written only when nothing else is in it
            kv = [(k, v) for k, v in kv if not (k.endswith("/") and any(o != k and o.startswith(k) for o, _ in kv))]
            rnd.shuffle(kv)
            out.append(f"[{name}]\n" + "".join(tele_key(k, v, ex) + "\n" for k, v in kv))
    rnd.shuffle(out)
    return "\n".join(out)

BATCH = ["scheduled_delay", "max_queue_size", "max_export_batch_size", "max_concurrent_exports"]
def batch_view(p, b):
    return {f"{p}.batch_export.{k}": nanos(v) if k == "scheduled_delay" else v for k, v in zip(BATCH, b)} if b else {}

def otlp_view(p, o):
    if not o["on"]:
        return {}
    w = {f"{p}.timeout": nanos(o["timeout"]), f"{p}.protocol": o["protocol"], **batch_view(p, o["batch"])}
    if o["protocol"] == "grpc":
        w[f"{p}.grpc.headers"] = HEADERS[o["grpc"][0]]
        for k, v in zip(["domain_name", "key", "cert", "ca"], o["grpc"][1:]):
            if v != "none":
                w[f"{p}.grpc.tls.{k}"] = v
    else:
        w[f"{p}.http.headers"] = HEADERS[o["http"]]
    if o["endpoint"]:
        w[f"{p}.endpoint"] = o["endpoint"]
    return w

def g03_replay(run, sc, cases, rnd):
    texts = [tele_toml(c["doc"], rnd) for c in cases]
    reqs = [{"op": "config", "files": {"{DIR}/g.toml": t}, "path": "{DIR}/g.toml"} for t in texts]
    for c, t, o in zip(cases, texts, sc.run(reqs)):
        r = c["read"]
        want = {"@tracing": r["tracing"], "@logs": r["logs"]}
        for sig in ("tracing", "metrics", "logs"):
            s = r["stdout"][sig]
            if s["on"]:
                want.update({f"@{sig}.stdout.enabled": True, f"@{sig}.stdout.timeout": nanos(s["timeout"]), **batch_view(f"@{sig}.stdout", s["batch"])})
            want.update(otlp_view(f"@{sig}.otlp", r["otlp"][sig]))
        want.update(otlp_view("@grafbase", r["grafbase"]))
        run.validated(1, {"file": t, "reading": want} if run.traces % 999 == 5 else None)
        run.note(f"{sum(r['otlp'][s]['on'] for s in r['otlp'])} OTLP and {sum(r['stdout'][s]['on'] for s in r['stdout'])} stdout exporters")
        case = {"file": t, "expected": want, "observed": o}
        if "config" not in o:
            run.violation(f"the file is not loaded: {o}", case)
            continue
        got = {k: v for k, v in o["config"].items() if k.startswith("@")}
        for p in ("@tracing.otlp", "@metrics.otlp", "@logs.otlp", "@grafbase"):
            # the exporters use the endpoint of the signal's section, then the global one
            l, g = got.pop(f"{p}.local.endpoint", None), got.pop(f"{p}.global.endpoint", None)
            if l or g:
                got[f"{p}.endpoint"] = l or g
        if got != want:
            diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            run.violation(f"{diff[0]} is read as {got.get(diff[0])!r}, not {want.get(diff[0])!r}", case)

CHECKS["G03"] = g03
NOTES["G03"] = ("Telemetry", "Exporter settings as a specification of documents and their reading (signal, global, default): all combinations of the switches of the "
                "global section, one signal and Grafbase's target, and random documents of up to 22 settings, loaded by the real code and read through its accessors")

# ------------------------------------------------------------------ G04: sections, keys, values, defaults
def g04(run):
    rnd = random.Random(run.seed)
    inv = ["ReadsBack", "Default", "Once"]
    with Scratch() as sc:
        r = tlc.parts("Config", 8, constants=dict(Steps=14), invariants=inv, init="InitAll", next_="NextAll", timeout=1500)
        run.model("Config (every key, every literal)", r)
        g04_replay(run, sc, r["cases"], rnd)
        for b in range(1 if run.quick else 10):
            r = tlc.simulate_many("Config", 12000 if run.quick else 40000, 8, run.seed + 11 * b, depth=201, constants=dict(Steps=14, Part=0, Parts=1), invariants=inv, timeout=1500)
            run.model("Config", r)
            g04_replay(run, sc, r["cases"], rnd)

def conf_toml(c, names, rnd):
    def real(s):
        return s.replace("subgraphs.N", f"subgraphs.{names[0]}").replace("extensions.N", f"extensions.{names[1]}")
    tables = {s: [] for s in c["secs"]}
    for s, n, t in c["keys"] + [[f["s"], f["n"], f["t"]] for f in c["fault"]]:
        tables.setdefault(s, []).append((n, t))
    order = list(tables)
    rnd.shuffle(order)
    for s in order:
        rnd.shuffle(tables[s])
    if rnd.random() < 0.3:
        # dotted keys; an empty table is written only if nothing else is in it
        out = []
        for s in order:
            out += [(f"{real(s)}." if s else "") + f"{n} = {t}" for n, t in tables[s]]
            if s and not tables[s] and not any(o.startswith(s + ".") for o in order):
                out.append(f"{real(s)} = {{}}")
        return "\n".join(out) + "\n"
    order.sort(key=lambda s: s != "")
    return "\n".join((f"[{real(s)}]\n" if s else "") + "".join(f"{n} = {t}\n" for n, t in tables[s]) for s in order)

def bare(v):
    """Absent fields are left out."""
    return {k: bare(x) for k, x in v.items() if x is not None} if isinstance(v, dict) else [bare(x) for x in v] if isinstance(v, list) else v

def g04_replay(run, sc, cases, rnd):
    names = [(rnd.choice(["one", "two-2", "A_b", "\"x y\"", "\"é.z\""]), rnd.choice(["ext", "e-1", "Ex", "\"e.x\""])) for _ in cases]
    texts = [conf_toml(c, n, rnd) for c, n in zip(cases, names)]
    reqs = [{"op": "config", "files": {"{DIR}/g.toml": t}, "path": "{DIR}/g.toml"} for t in texts]
    for c, n, t, o in zip(cases, names, texts, sc.run(reqs)):
        run.validated(1, {"file": t, "valid": c["ok"]} if run.traces % 999 == 5 else None)
        run.note("valid" if c["ok"] else "required key missing" if c["missing"] else "unknown key" if c["fault"][0]["t"] == "1" and c["fault"][0]["n"] in UNKNOWN else "wrong literal")
        case = {"file": t, "valid": c["ok"], "observed": o}
        if "panic" in o:
            run.violation(f"loading crashes: {o['panic'][:200]}", case)
        elif not c["ok"]:
            if "config" in o:
                why = f"{c['fault'][0]['n']} = {c['fault'][0]['t']} in [{c['fault'][0]['s']}]" if c["fault"] else f"no {c['missing'][0][1]} in [{c['missing'][0][0]}]"
                run.violation(f"a file with {why} is accepted", case, sig=f"accepts {c['fault'][0]['s']}.{c['fault'][0]['n']} = {c['fault'][0]['t']}" if c["fault"] else None)
            elif not o.get("error"):
                run.violation("a refused file has no error", case)
        elif "config" not in o:
            run.violation(f"the file is not loaded: {o}", case)
        else:
            plain = [x.strip('"') for x in n]
            want = {}
            for s, k, v in c["read"]:
                s = s.replace("subgraphs.N", f"subgraphs.{plain[0]}").replace("extensions.N", f"extensions.{plain[1]}")
                want[f"{s}.{k}" if s else k] = json.loads(v)
            got = {k: bare(v) for k, v in o["config"].items() if k[0] not in "#@" and k != "scratch"}
            if got != want:
                diff = sorted(k for k in set(got) | set(want) if got.get(k, "absent") != want.get(k, "absent"))
                case["expected"] = {k: want.get(k) for k in diff}
                run.violation(f"{diff[0]} is read as {got.get(diff[0], 'absent')!r}, not {want.get(diff[0], 'absent')!r}", case)

UNKNOWN = {"unknown", "Enabled", "enable", "name_", "paths"}
CHECKS["G04"] = g04
NOTES["G04"] = ("Config", "The configuration's sections, keys, kinds, defaults and required keys as a specification: every key with every literal of its kind and with "
                "wrong ones, every section empty and with unknown keys, every required key left out, and random files of up to 14 keys, loaded by the real code and "
                "compared value by value")
