"""Runs the Rust conformance harness: a list of JSON requests in, a list of JSON observations out."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(ROOT, "target", "debug", "vharness")
_built = False

class ToolError(Exception):
    pass

def build():
    global _built
    if _built or os.environ.get("VERIF_NOBUILD"):
        return
    p = subprocess.run([os.path.join(ROOT, "tools", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + p.stdout[-4000:])
    _built = True

def _run(lines, timeout, threads, extra=None, cwd=None):
    env = dict(os.environ, **(extra or {}), VHARNESS_THREADS=str(threads), RUST_BACKTRACE="0", NO_COLOR="1", TZ="UTC")
    try:
        p = subprocess.run([BIN], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=timeout, env=env, errors="replace", cwd=cwd)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b""), "timeout"
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
    res = {}
    for l in out.split("\n"):
        i, _, v = l.partition("\t")
        try:
            res[int(i)] = json.loads(v)
        except ValueError:
            pass
    return res, rc

def run(reqs, timeout=300, threads=8, extra=None, cwd=None):
    """Observation per request; a crash or hang of the process on one request is observed as such."""
    build()
    lines = [json.dumps(r) for r in reqs]
    res, rc = _run(lines, timeout, threads, extra, cwd)
    if rc != 0:
        # Some request killed or blocked the process: find it (them) one by one, in shrinking batches.
        todo = [i for i in range(len(reqs)) if i not in res]
        crashes = 0
        batch = 64
        while todo:
            chunk, todo = todo[:batch], todo[batch:]
            r2, rc2 = _run([lines[i] for i in chunk], 60, 1 if len(chunk) == 1 else threads, extra, cwd)
            for k, v in r2.items():
                res[chunk[k]] = v
            rest = [i for k, i in enumerate(chunk) if k not in r2]
            for i in rest:
                if crashes > 20:
                    res[i] = {"skipped": True}
                    continue
                r3, rc3 = _run([lines[i]], 20, 1, extra, cwd)
                if 0 in r3:
                    res[i] = r3[0]
                else:
                    crashes += 1
                    res[i] = {"crash": "hang" if rc3 == "timeout" else f"process died ({rc3})"}
    outl = [res.get(i, {"harness_error": "no answer"}) for i in range(len(reqs))]
    for r, o in zip(reqs, outl):
        if "harness_error" in o:
            raise ToolError(f"harness: {o['harness_error']} on {json.dumps(r)[:500]}")
    return outl
