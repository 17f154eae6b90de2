#!/usr/bin/env python3
"""Development tool for planted bugs.
 seed.py new <id> <property> <crates,comma separated> <needs> <what_it_breaks>   (main.rs on stdin; the change is /repo's diff, undone)
 seed.py confirm <id>...     tests pass with the patch, the demo fails with it and passes without
 seed.py try <id>... [-- P..]  the checks of the property (or of P..) against the patch"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of the current directory (the repository) and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTUP_AUTO_INSTALL=0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
dir=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here/main.rs" "$dir/src/main.rs" && cp "$repo/Cargo.lock" "$dir/Cargo.lock" || exit 9
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[profile.dev]
debug = 0
incremental = false
[dependencies]
@DEPS@
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$dir/target} DEMO_DIR=$dir
cd "$dir" && cargo build --offline -q || exit 8
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
EXT = {"tokio": 'tokio = { version = "1", features = ["full"] }', "toml": 'toml = "0.9"', "serde_json": 'serde_json = "1"', "async-graphql-parser": 'async-graphql-parser = "7"',
       "cynic-parser": 'cynic-parser = "0.11"', "semver": 'semver = "1"', "url": 'url = "2"',
       "field-selection-map": 'field-selection-map = { path = "$repo/crates/engine/field-selection-map", package = "engine-field-selection-map" }',
       "id-newtypes": 'id-newtypes = { path = "$repo/crates/engine/id-newtypes", package = "engine-id-newtypes" }',
       "extension": 'extension = { path = "$repo/crates/extension", package = "grafbase-extension" }'}
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def d(i):
    return os.path.join(ROOT, "seeded", i)
def undo():
    sh("git -C /repo checkout -- .")
def apply(i):
    p = sh(f"git -C /repo apply {d(i)}/patch.diff")
    assert p.returncode == 0, p.stdout
def main(a):
    if a[0] == "new":
        _, i, prop, crates, needs, breaks = a
        os.makedirs(d(i), exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        assert diff.strip(), "no change in /repo"
        open(d(i) + "/patch.diff", "w").write(diff)
        undo()
        src = sys.stdin.read()
        if src.strip():
            open(d(i) + "/main.rs", "w").write(src)
        deps = "\n".join(EXT.get(c) or f'{c} = {{ path = "$repo/crates/{c}" }}' for c in crates.split(","))
        open(d(i) + "/demo.sh", "w").write(DEMO.replace("@DEPS@", deps))
        os.chmod(d(i) + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d(i) + "/meta.json", "w"), indent=1)
    elif a[0] == "confirm":
        for i in a[1:]:
            t = time.time()
            os.environ["DEMO_TARGET"] = "/tmp/demotarget"
            ok = sh(f"cd /repo && bash {d(i)}/demo.sh")
            apply(i)
            try:
                tests = sh("bash /tmp/rt.sh")
                bad = sh(f"cd /repo && bash {d(i)}/demo.sh")
            finally:
                undo()
            good = ok.returncode == 0 and "ALL OK" in tests.stdout and bad.returncode not in (0, 8, 9)
            print(i, "CONFIRMED" if good else "NOT CONFIRMED", f"demo unpatched {ok.returncode}, patched {bad.returncode}; {tests.stdout.splitlines()[:1]}; {time.time()-t:.0f} s")
            if not good:
                print(ok.stdout[-800:], bad.stdout[-1500:], tests.stdout[-800:])
    elif a[0] == "try":
        ids = a[1:a.index("--")] if "--" in a else a[1:]
        props = a[a.index("--") + 1:] if "--" in a else None
        for i in ids:
            ps = props or [json.load(open(d(i) + "/meta.json"))["property"]]
            apply(i)
            try:
                for p in ps:
                    r = sh(f"cd {ROOT} && python3 check.py {p} quick")
                    w = [l for l in r.stdout.splitlines() if l.startswith("--")][:1]
                    print(i, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, f"rc {r.returncode}"), (w or r.stdout.splitlines()[-1:])[0][:300])
            finally:
                undo()
main(sys.argv[1:])
