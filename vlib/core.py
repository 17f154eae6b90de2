"""One run of one property's check: counts what was explored, reports violations, writes the evidence file."""
import json, os, sys, time, traceback
from .harness import ToolError, ROOT

LEVEL = "model_checking"

def known_findings(pid):
    """Lines `known: property=<id> sig=<signature> <what fails>` of known-findings.txt."""
    out = {}
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        if l.startswith(f"known: property={pid} "):
            sig, _, what = l[len(f"known: property={pid} "):].strip().partition(" ")
            assert sig.startswith("sig="), l
            out[sig[4:]] = what
    return out

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.modules = [], [], {}
        self.known = known_findings(pid)
        self.seen_known = {}
        self.notes = {}

    def model(self, name, res):
        """Account for one TLC run."""
        self.states += res["states"]
        self.transitions += res["transitions"]
        m = self.modules.setdefault(name, {"states": 0, "transitions": 0, "behaviours": 0})
        m["states"] += res["states"]
        m["transitions"] += res["transitions"]
        m["behaviours"] += len(res.get("cases", ()))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def validated(self, n=1, sample=None):
        self.traces += n
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def violation(self, what, case, sig=None):
        """sig: stable signature of the failure, matched against the known findings."""
        if sig is not None and sig in self.known:
            self.seen_known[sig] = self.seen_known.get(sig, 0) + 1
            return
        if len(self.violations) < 20:
            self.violations.append({"what": what, "case": case, "sig": sig})
        else:
            self.note("violations_not_listed")

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": json.loads(json.dumps(self.samples, default=str))[:4] or ["none"], "modules": self.modules, "notes": self.notes,
               "known_findings_seen": self.seen_known, "violations": len(self.violations)}
        if len(json.dumps(cov)) > 400_000:
            cov["samples"] = [json.dumps(s, default=str)[:20000] for s in cov["samples"]]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - self.t0, 1)}
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w"), indent=1, default=str)
        for sig, what in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {what}" + ("" if sig in self.seen_known else " (not met in this run)"))
        print(f"{self.pid} {self.tier}: {self.states} states, {self.transitions} transitions, {self.traces} behaviours validated against the implementation, {ev['wall_s']} s")
        for k, v in sorted(self.notes.items()):
            print(f"  {k}: {v}")
        if self.violations:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(d, f"{self.pid}-{i}.json")
                json.dump(v, open(path, "w"), indent=1, default=str)
                print(f"-- {v['what']}"[:2000])
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if self.traces == 0:
            print("no behaviour was validated", file=sys.stderr)
            return 2
        return 0

def main(registry, argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(pid, tier, seed)
    try:
        registry(pid)(run)
        rc = run.finish()
    except ToolError as e:
        print(f"tool error: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc
