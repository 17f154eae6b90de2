#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a check is claimed, the others are listed with a reason."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, root)
from checks import CHECKS, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
TECH = ("TLA+ specification ({m}) model-checked with TLC; behaviours of the specification replayed in the real crates through "
        "the harness and compared with the observations, aspect by aspect")
REC = ("TLA+ specification ({m}) model-checked with TLC; histories recorded from the real crate validated against the specification "
       "(trace validation with a POSTCONDITION), and behaviours of the specification replayed in it")
checks, na = [], []
for i in ids:
    if i in CHECKS:
        mods, note = NOTES[i][:2]
        mods = mods.split(", ") if isinstance(mods, str) else mods
        mods = ", ".join("spec/" + m.removeprefix("spec/").removesuffix(".tla") + ".tla" if " " not in m else m for m in mods)
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique=(REC if "trace" in NOTES[i][2:] else TECH).format(m=mods), level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="bash tools/build.sh", hooks=dict(guard="cfg(verification), in crates/grafbase-sdk", enable="RUSTFLAGS='--cfg verification' (set by tools/build.sh)", source_commits=["8656d17b4f48a35dc90ce5aefe1cf11a250a22b1"]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
