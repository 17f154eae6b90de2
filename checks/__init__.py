"""Every property's check, and the note MANIFEST.json gives about it."""
import importlib, os
CHECKS, NOTES = {}, {}
for m in ("composition", "output", "plumbing", "roots", "links", "diff", "operations", "validation", "small", "config", "runtime", "sdk", "introspect", "telemetry"):
    if os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py")):
        mod = importlib.import_module("checks." + m)
        CHECKS.update(mod.CHECKS)
        NOTES.update(mod.NOTES)
