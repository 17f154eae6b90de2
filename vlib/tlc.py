"""Runs TLC on a module of /verif/spec and collects the behaviours it prints."""
import json, os, re, shutil, subprocess, tempfile, threading
from .harness import ToolError, ROOT
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class SpecViolation(ToolError):
    """An invariant of the specification itself fails: the model is wrong, not the code."""

def cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(cfg_value(x) for x in sorted(v)) + "}"
    raise ToolError(f"no cfg form for {v!r}")

def tlc(module, constants=None, invariants=(), simulate=None, depth=None, seed=1, workers=8, timeout=800,
        init="Init", next_="Next", spec=None, properties=(), postcondition=None, env=None, heap="6g", constraint=None, view=None):
    """Returns {cases, states, transitions, depth, simulated}. Raises ToolError / SpecViolation."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix=module + "-", dir=WORK)
    try:
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        cfg.append("CHECK_DEADLOCK FALSE")
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {cfg_value(v)}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        cfgp = os.path.join(d, "m.cfg")
        open(cfgp, "w").write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}",
               f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(d, "st"), "-config", cfgp, "-noGenerateSpecTE",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d,
                               env=dict(os.environ, **(env or {})), errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cases, rest = [], []
    for l in out.splitlines():
        if l.startswith('"CASE '):
            cases.append(json.loads(json.loads(l)[5:]))
        else:
            rest.append(l)
    text = "\n".join(rest)
    res = {"cases": cases, "text": text, "rc": p.returncode, "states": 0, "transitions": 0}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        res["transitions"], res["states"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"number of states generated: ([\d,]+)", text)
    if m and simulate:
        res["states"] = res["transitions"] = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        res["depth"] = int(m.group(1))
    if p.returncode == 12 or "is violated" in text:
        res["violated"] = True
        if not postcondition:
            open("/tmp/tlc.out","w").write(text) if os.environ.get("TLCDBG") else None
            raise SpecViolation(f"the specification {module} violates its own invariant:\n" + text[:1500] + "\n...\n" + text[-1500:])
    elif p.returncode != 0 and not postcondition:
        raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + text[:1500] + "\n...\n" + text[-1500:])
    return res

def parts(module, n, constants=None, **kw):
    """An exhaustive exploration split into n independent parts (constants Part and Parts)."""
    outs, errs = [None] * n, []
    def one(i):
        try:
            outs[i] = tlc(module, constants=dict(constants or {}, Part=i, Parts=n), workers=1, heap="2g", **kw)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return {"cases": [c for o in outs for c in o["cases"]], "states": sum(o["states"] for o in outs),
            "transitions": sum(o["transitions"] for o in outs), "depth": max(o.get("depth", 0) for o in outs)}

def simulate_many(module, n, procs, seed, depth=1000, **kw):
    """procs independent seeded simulation runs, concatenated in seed order (deterministic)."""
    outs, errs = [None] * procs, []
    def one(i):
        try:
            # each trace yields depth-1 cases
            outs[i] = tlc(module, simulate=max(1, n // procs // max(1, depth - 1)), depth=depth, seed=seed * 1000 + i, workers=1, heap="2g", **kw)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return {"cases": [c for o in outs for c in o["cases"]], "states": sum(o["states"] for o in outs),
            "transitions": sum(o["transitions"] for o in outs)}
