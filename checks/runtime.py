"""L01, L02, E01: the rolling access log and the event queue."""
import json, os, random, tempfile, threading
from checks.config import Scratch
from vlib import harness, tlc

# ------------------------------------------------------------------ L01, L02
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

def log_steps(hist):
    out = []
    for e in hist:
        s = {"do": e["do"], "s": e["s"], "ms": e["ms"]}
        if e["do"] in ("write", "place"):
            s["text"] = LETTERS[e["id"] - 1] * e["n"]
            s["once"] = e["once"]
        if e["do"] == "open":
            s["strategy"] = {"kind": e["kind"], "limit": e["limit"]}
        if e["fault"]["at"]:
            s["fault"] = e["fault"]
        out.append(s)
    return out

def pieces(text):
    out = []
    for ch in text:
        if out and out[-1]["id"] == LETTERS.index(ch) + 1:
            out[-1]["n"] += 1
        else:
            out.append({"id": LETTERS.index(ch) + 1, "n": 1})
    return out

def log_trace(hist, obs):
    """The recorded history, in the specification's terms."""
    out = []
    for e, o in zip(hist, obs["steps"]):
        files = dict(o["files"])
        cur = [pieces(files.pop("access.log"))] if "access.log" in files else []
        names = sorted(files, key=lambda n: int(n.removeprefix("access.log.")))
        out.append({**e, "taken": o.get("taken", 0), "result": "died" if o["died"] else "ok" if o["result"] == "ok" else "error", "cur": cur, "arch": [pieces(files[n]) for n in names]})
    return out

def conform(run, module, traces, constants, procs=8, ends=0):
    """Checks recorded traces against the specification; returns {index: first step that is none of its steps}."""
    if not traces:
        return {}
    bad, stats, errs = {}, [], []
    d = tempfile.mkdtemp(prefix="vh-traces-")
    def one(k):
        try:
            mine = list(range(k, len(traces), procs))
            if not mine:
                return
            p = os.path.join(d, f"{k}.json")
            json.dump([traces[i] for i in mine], open(p, "w"))
            r = tlc.tlc(module, constants=constants, init="TInit", next_="TNext", constraint="Seen", postcondition="Conforms", workers=1,
                        heap="3g", timeout=1500, env={"TRACES": p})
            stats.append(r)
            if r["rc"] != 0 and not r["cases"]:
                raise harness.ToolError(f"TLC failed on {module}:\n" + r["text"][-3000:])
            for c in r["cases"]:
                t = traces[mine[c["trace"] - 1]]
                if c["step"] < (len(t["events"]) + ends if isinstance(t, dict) else len(t)):
                    bad[mine[c["trace"] - 1]] = c["step"]
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if errs:
        raise errs[0]
    run.model(module, {"states": sum(s["states"] for s in stats), "transitions": sum(s["transitions"] for s in stats)})
    return bad

def rolling(run, timed):
    rnd = random.Random(run.seed)
    with Scratch() as sc:
        r = tlc.tlc("RollingLog", constants=dict(Steps=4 if run.quick else 5, Timed=timed), invariants=["NoLoss", "Rotation"], properties=["Refinement"],
                    init="Init", next_="NextAll", timeout=3000)
        run.model("RollingLog (all short histories)", r)
        rolling_replay(run, sc, r["cases"], timed)
        for b in range(1 if run.quick else 10):
            r = tlc.simulate_many("RollingLog", 120000 if run.quick else 400000, 8, run.seed + 13 * b, depth=3001, constants=dict(Steps=60, Timed=timed),
                                  invariants=["NoLoss", "Rotation"], properties=["Refinement"], timeout=1800)
            run.model("RollingLog", r)
            rolling_replay(run, sc, r["cases"], timed)

def rolling_replay(run, sc, hists, timed):
    reqs = [{"op": "log", "steps": log_steps(h)} for h in hists]
    traces, at = [], []
    for i, (h, o) in enumerate(zip(hists, sc.run(reqs))):
        run.validated(1, {"history": h} if run.traces % 4999 == 5 else None)
        if "panic" in o:
            run.violation(f"the logger crashes: {o['panic'][:200]}", {"history": h})
            continue
        try:
            t = log_trace(h, o)
        except ValueError:
            run.violation("a file is there that is neither the log nor an archive of it", {"history": h, "observed": o})
            continue
        for e in t:
            run.note(f"{e['do']} {e['fault']['at']} {e['fault']['how']}: {e['result']}".replace("  :", ":"))
        traces.append(t)
        at.append((h, o))
    for i, step in sorted(conform(run, "RollingLogTrace", traces, dict(Steps=0, Timed=timed)).items()):
        h, o = at[i]
        e, before = traces[i][step], traces[i][step - 1] if step else {}
        run.violation(f"step {step + 1} of a history ({e['do']} {e['n'] or ''}): " +
                      f"{ {k: [''.join(LETTERS[p['id'] - 1] * p['n'] for p in f) for f in before.get(k, [])] for k in ('arch', 'cur')} } becomes "
                      f"{ {k: [''.join(LETTERS[p['id'] - 1] * p['n'] for p in f) for f in e[k]] for k in ('arch', 'cur')} }, answered {o['steps'][step]['result']!r}",
                      {"history": log_steps(h[:step + 1]), "observed": o["steps"][:step + 1]})

CHECKS = {"L01": lambda run: rolling(run, False), "L02": lambda run: rolling(run, True)}
NOTES = {
    "L01": ("RollingLog, RollingLogTrace", "The log as a specification with clock, restarts, failing and partial system calls and process death inside them; all histories "
            "of four (thorough: five) operations and random ones of 60 are run by the real logger under a virtual clock with stand-in system calls, and the recorded "
            "files after every operation are checked to be a behaviour of the specification (rotation at any time allowed)", "trace"),
    "L02": ("RollingLog, RollingLogTrace", "As L01, with the rotation only at the strategy's threshold", "trace"),
}

# ------------------------------------------------------------------ E01
def e01(run):
    rnd = random.Random(run.seed)
    for b in range(1 if run.quick else 10):
        r = tlc.simulate_many("Events", 60000 if run.quick else 240000, 8, run.seed + 13 * b, depth=1001, constants=dict(Steps=24), invariants=["Fifo", "Filtered"], timeout=1500)
        run.model("Events", r)
        events_replay(run, r["cases"])
        concurrent(run, rnd, 1500 if run.quick else 6000)

def clean(e):
    """The event as it is built; "NONE" and 1000 stand for settings that were never made."""
    e = dict(e)
    if e["kind"] == "operation":
        e["name"] = None if e["name"] == "NONE" else e["name"]
        e["complexity"] = None if e["complexity"] == 1000 else e["complexity"]
    return e

def events_replay(run, cases):
    reqs, wants = [], []
    for c in cases:
        f = c["filter"]
        steps = []
        for s in c["steps"]:
            e = dict(s["step"])
            if e["do"] == "push":
                if e["kind"] == "operation" and e.pop("plain"):
                    e.pop("type")
                if e["kind"] == "extension":
                    e["extension"] = e["name"]
            steps.append(e)
        reqs.append({"op": "events", "filter": sorted(f["types"]) if f["all"] == "types" else None if f["all"] == "none" else f["all"], "steps": steps})
        wants.append([({} if s["answer"]["kind"] == "none" else clean(s["answer"])) if s["step"]["do"] == "pop" else s["answer"] for s in c["steps"]])
    for q, w, o in zip(reqs, wants, harness.run(reqs)):
        run.validated(1, {"filter": q["filter"], "answers": w[:4]} if run.traces % 499 == 5 else None)
        run.note("pops with an event", sum(1 for s, x in zip(q["steps"], w) if s["do"] == "pop" and x))
        if o.get("steps") != w:
            if "steps" not in o:
                run.violation(f"the queue crashes: {o}", {"request": q})
                continue
            k = next(i for i in range(len(w)) if o["steps"][i] != w[i])
            got, want = o["steps"][k], w[k]
            keys = [x for x in want if got.get(x) != want[x]] if got and want else []
            what = f"{keys[0]} of the {want['kind']} event is {got.get(keys[0])!r}, not {want[keys[0]]!r}" if keys and want.get("kind") == got.get("kind") else f"step {k + 1} gives {got}, not {want}"
            run.violation(what, {"filter": q["filter"], "steps": q["steps"][:k + 1], "expected": want, "observed": got})

KINDS = ["operation", "subgraph", "http", "extension"]
def concurrent(run, rnd, n):
    reqs = []
    for _ in range(n):
        kept = [k for k in KINDS if rnd.random() < 0.75]
        threads, ident = [], 0
        for t in range(rnd.randint(2, 4)):
            role = rnd.choice(["push", "pop", "both"])
            ops = []
            for _ in range(rnd.randint(2, 6)):
                spin = rnd.choice([0, 0, 0, 20, 200])
                if role == "pop" or (role == "both" and rnd.random() < 0.5):
                    ops.append({"do": "pop", "spin": spin, "kind": "", "id": 0})
                    continue
                ident += 1
                k = rnd.choice(KINDS)
                e = {"do": "push", "spin": spin, "kind": k, "id": ident, "at": 0, "end": 0, "sets": []}
                e.update({"operation": {"sets": [{"set": "name", "v": str(ident), "at": 0}]}, "subgraph": {"name": "s", "method": "POST", "url": str(ident)},
                          "http": {"url": str(ident)}, "extension": {"extension": "x", "event": str(ident), "data": []}}[k])
                ops.append(e)
            threads.append(ops)
        reqs.append({"op": "concurrent", "filter": rnd.choice([kept, kept, kept, "all", None]), "threads": threads})
    traces = []
    for q, o in zip(reqs, harness.run(reqs, threads=3)):
        if "events" not in o:
            run.violation(f"concurrent use crashes: {o}", q)
            continue
        kept = KINDS if q["filter"] == "all" else q["filter"] or []
        for e in o["events"]:
            # one shape for all
            e.setdefault("do", ""), e.setdefault("kind", ""), e.setdefault("id", 0)
            e["do"], e["kind"], e["id"] = e["do"] or "", e["kind"] or "", e["id"] or 0
        traces.append({"kept": kept, "events": o["events"], "rest": o["rest"]})
        run.validated(1)
        overlap = sum(1 for a, b in zip(o["events"], o["events"][1:]) if a["e"] == "call" and b["t"] != a["t"])
        run.note("concurrent histories with overlapping operations" if overlap else "concurrent histories without overlap")
    bad = conform(run, "EventQueueTrace", traces, {}, ends=1)
    for i, step in sorted(bad.items()):
        run.violation(f"a concurrent history has no order of effects that explains it (after {step} events)", traces[i])

CHECKS["E01"] = e01
NOTES["E01"] = ("Events, EventQueueTrace", "The queue as a specification: random single-thread histories of building, filtering, pushing and popping under a virtual clock are "
                "predicted event by event; recorded runs of two to four threads are checked to be linearizable to the FIFO specification", "trace")
