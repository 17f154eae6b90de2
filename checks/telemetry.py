"""T01: what the gateway's events become as log records. T02: what leaves the gateway for collectors."""
import random
from vlib import harness, tlc

WIDE = {1: "z", 2: "é", 3: "語", 4: "🎉"}
NUMBERS = {"zero": 0, "minus one": -1, "i64 min": -2**63, "i64 max": 2**63 - 1, "i64 max and one": 2**63, "u64 max": 2**64 - 1, "i128 min": -2**127, "u128 max": 2**128 - 1}
RANGES = {"i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1)}
FLOATS = ["0", "1.5", "-2.25", "1e300", "0.1"]
LEVELS = [("ERROR", 17), ("WARN", 13), ("INFO", 9), ("DEBUG", 5), ("TRACE", 1)]
PLACES = [("target::a", "src/a/b.rs", "b.rs", 12, "crate::a::b"), ("b", "b.rs", "b.rs", 1, "b"), ("c", "C:\\x\\y.rs", "y.rs", None, "x"), ("d", None, None, None, None)]

def text(t): return "a" * t[0] + WIDE[t[1]] * t[2]
def cut(c): return text(c["text"]) + ("...[truncated]" if c["cut"] else "")

def given(f):
    if f[0] == "text":
        return [f[1], text(f[2])]
    if f[0] == "number":
        fits = [k for k, (lo, hi) in RANGES.items() if lo <= NUMBERS[f[1]] <= hi]
        return [fits[f[2] % len(fits)], str(NUMBERS[f[1]])]
    return [f[0], {"bool": lambda: f[1] == 1, "float": lambda: FLOATS[f[1]], "bytes": lambda: f[1]}[f[0]]()]

def same(attribute, want):
    kind = want[0]
    if kind == "text":
        return attribute == {"text": cut(want[1])}
    if kind == "number":
        return attribute == {"int": str(NUMBERS[want[1]])}
    if kind == "digits":
        return attribute == {"text": str(NUMBERS[want[1]])}
    if kind == "bytes":
        return attribute == {"bytes": [i % 256 for i in range(want[1])]}
    if kind == "bool":
        return attribute == {"bool": want[1] == 1}
    return set(attribute) == {"float"} and float(attribute["float"]) == float(FLOATS[want[1]])

def wrong_record(event, want, r, spans, opened, remotes):
    if len(r) != 1:
        return f"an event becomes {len(r)} records"
    r = r[0]
    target, file, name, line, module = PLACES[event["place"]]
    if (r["level"], r["severity"]) != LEVELS[event["level"]] or r["target"] != target:
        return f"an event of level {LEVELS[event['level']]} for {target} is recorded with {r['level']}, {r['severity']} for {r['target']}"
    body = cut(want["body"][0]) if want["body"] else "the name of the event"
    if r["body"] != {"text": body}:
        got = (r["body"] or {}).get("text")
        return f"the message of {len(body.encode())} bytes is recorded as {'none' if got is None else f'{len(got.encode())} bytes, ending {got[-24:]!r} instead of {body[-24:]!r}'}"
    attributes = r["attributes"]
    place = {"code.namespace": {"text": module}, "code.filepath": {"text": file}, "code.filename": {"text": name}, "code.lineno": {"int": str(line)}}
    place = {k: v for k, v in place.items() if list(v.values())[0] not in (None, "None")}
    if {k: v for k, v in attributes if k.startswith("code.")} != place:
        return f"the place of the event is recorded as {[a for a in attributes if a[0].startswith('code.')]} instead of {place}"
    fields = [(k, v) for k, v in attributes if k[0] == "f"]
    if [k for k, _ in fields] != [f"f{i + 1}" for i in range(len(want["attributes"]))]:
        return f"the fields recorded are {[k for k, _ in fields]}, of {len(event['fields'])}"
    for (k, v), w, f in zip(fields, want["attributes"], event["fields"]):
        if not same(v, w):
            return f"a field {f} is recorded as {str(v)[:40]}…{str(v)[-40:]}"
    dropped = [v for k, v in attributes if k == "otel.fields_dropped"]
    if dropped != ([{"int": str(want["dropped"])}] if want["dropped"] else []):
        return f"{want['dropped']} fields are left out, and {dropped} are told"
    exception = [v for k, v in attributes if k == "exception.message"]
    if len(exception) != len(want["exception"]) or not all(map(same, exception, want["exception"])):
        return f"the exception is recorded as {str(exception)[:80]}"
    if not want["span"]:
        return f"an event outside of spans is recorded in {r['trace']}" if r["trace"] else None
    root = opened[want["span"] - 1]["root"]
    trace = remotes.get(root) or spans[f"s{root}"][0]
    if r["trace"] != [trace, spans[f"s{want['span']}"][1]]:
        return f"an event in span {want['span']} of trace {root} is recorded in {r['trace']} instead of {[trace, spans['s%d' % want['span']][1]]}"

def t01(run):
    rnd = random.Random(run.seed)
    for b in range(1 if run.quick else 8):
        r = tlc.simulate_many("LogRecords", 90000, 8, run.seed + 7 * b, depth=1501, invariants=["WholeCharacters", "WholeMessages", "Counted", "OneTrace"], timeout=1800)
        run.model("LogRecords", r)
        reqs, allremotes = [], []
        for c in r["cases"]:
            steps, remotes, n = [], {}, 0
            for s in c["steps"]:
                if s["what"] == "open":
                    n += 1
                    if s["remote"]:
                        remotes[n] = f"{rnd.randrange(1, 2**128):032x}"
                    steps.append({"what": "open", "remote": remotes.get(n)})
                elif s["what"] == "event":
                    e = s["event"]
                    steps.append({"what": "event", "event": {"level": e["level"], "place": e["place"], "message": [["str", "debug"][e["by"]], text(e["message"][0])] if e["message"] else None, "fields": [given(f) for f in e["fields"]]}})
                else:
                    steps.append(s)
            reqs.append({"op": "records", "steps": steps})
            allremotes.append(remotes)
        for c, rq, remotes, o in zip(r["cases"], reqs, allremotes, harness.run(reqs)):
            run.validated(1, [s["what"] for s in c["steps"]] if run.traces % 700 == 5 else None)
            events = [s for s in c["steps"] if s["what"] == "event"]
            if "records" not in o:
                run.violation(f"telling events fails: {str(o)[:300]}", {"request": rq, "observed": o})
                continue
            spans = {n: (t, i) for n, t, i in o["spans"]}
            for s, got in zip(events, o["records"]):
                wrong = wrong_record(s["event"], s["record"], got, spans, c["spans"], remotes)
                if wrong:
                    run.violation(wrong, {"request": rq, "observed": o, "expected": s["record"]})
                    break

SIGNALS = {"tracing": "traces", "logs": "logs", "metrics": "metrics"}
HEADERS = {k: {"x-key": f"value {k}", f"x-only-{k}": "yes"} for k in range(1, 6)}

def section(name, sec, c, protocol, batch):
    lines = [f"[telemetry.{name}]"] + ([f"protocol = \"http\""] if protocol else [])
    if sec["enabled"]:
        lines.append(f"enabled = {str(sec['enabled'][0]).lower()}")
    if sec["path"]:
        lines.append(f"endpoint = \"http://{{ADDRESS}}{sec['path'][0]}\"")
    if sec["headers"]:
        lines.append("http.headers = { " + ", ".join(f"{k} = \"{v}\"" for k, v in HEADERS[sec["headers"][0]].items()) + " }")
    if batch:
        lines.append(f"batch_export = {{ scheduled_delay = \"600s\", max_export_batch_size = {c['batch']} }}")
    return lines

def configuration(c, rnd):
    L = c["limits"]
    out = ["[telemetry]"] + (["service_name = \"the service\""] if c["service"] else [])
    out += ["[telemetry.resource_attributes]"] + [f"attribute{k} = \"value {k}\"" for k in range(c["resource"])]
    out += ["[telemetry.tracing]", f"sampling = {c['sampling'] / 8}", f"parent_based_sampler = {str(c['parents']).lower()}", "[telemetry.tracing.collect]"]
    names = ["max_attributes_per_span", "max_events_per_span", "max_links_per_span", "max_attributes_per_event", "max_attributes_per_link"]
    out += [f"{n} = {l}" for n, l in zip(names, L) if l != 128]
    if c["global"]:
        out += section("exporters.otlp", c["global"][0], c, True, True)
    for s in SIGNALS:
        if c["own"][s]:
            own = not c["global"] or rnd.random() < .5
            out += section(f"{s}.exporters.otlp", c["own"][s][0], c, own, own)
    if c["grafbase"]:
        out += section("grafbase", c["grafbase"][0], c, True, True)
    return "\n".join(out) + "\n"

def counted(pairs):
    return all(p == [f"a{i}", i] for i, p in enumerate(pairs)) and len(pairs)

def wrong_exports(c, traces, o):
    cfg, default = c["config"], "grafbase-gateway"
    want = {"service.name": "the service" if cfg["service"] else default} | {f"attribute{k}": f"value {k}" for k in range(cfg["resource"])}
    # the library may lose the end of a round in batches smaller than it
    small = cfg["batch"] < 512
    for signal, kind in SIGNALS.items():
        targets = [(t["path"], frozenset((HEADERS[t["headers"][0]] if t["headers"] else {}).items())) for t in c["targets"][signal]]
        for target in set(targets):
            times = targets.count(target)
            for k, r in enumerate(c["rounds"]):
                got = [x for x in o["seen"] if x["target"] == target and x["kind"] == kind and (x["round"] == k or small and kind != "metrics")]
                for x in got:
                    for part in x[kind]:
                        about = dict(part["resource"])
                        if {n: about.get(n) for n in want} != want:
                            return f"{kind} are told to be of {about} instead of {want}"
                parts = [p for x in got for p in x[kind]]
                where = f"{target[0]} with headers {sorted(target[1])}"
                if kind == "traces":
                    spans = [s for p in parts for s in p["spans"]]
                    if any(sum(len(p["spans"]) for p in x[kind]) > cfg["batch"] for x in got):
                        return f"more than {cfg['batch']} spans are exported at once"
                    for i, (s, kept) in enumerate(zip(r["spans"], c["spans"][k])):
                        mine = [x for x in spans if x["name"] == f"r{k}s{i}"]
                        if len(mine) > len(kept) * times or len(mine) < len(kept) * times and not small:
                            return f"a span of fraction {s['fraction']}/8 with parent {s['parent']} arrives {len(mine)} times instead of {len(kept) * times} at {where}, sampling {cfg['sampling']}/8{' based on parents' if cfg['parents'] else ''}"
                        for m in mine:
                            w = kept[0]
                            if m["trace"] != traces[k][i] or m["parent"] != ("" if s["parent"] == "none" else "0000000000abcdef"):
                                return f"a span of trace {traces[k][i]} with parent {s['parent']} arrives in {m['trace']} with parent {m['parent']}"
                            seen = {"attributes": counted(m["attributes"]), "lost": m["lost"], "events": [[counted(e[1]), e[2]] for e in m["events"]], "lostEvents": m["lostEvents"],
                                    "links": [[counted(e[1]), e[2]] for e in m["links"]], "lostLinks": m["lostLinks"]}
                            if seen != w:
                                return f"a span with {s} arrives as {seen} instead of {w}"
                            if [e[0] for e in m["events"]] != [f"e{j}" for j in range(len(w["events"]))] or [l[0] for l in m["links"]] != [f"{0x1000 + j:016x}" for j in range(len(w["links"]))]:
                                return f"other events or links arrive: {m}"
                    if len(spans) != times * sum(map(len, c["spans"][k])) and not small:
                        return f"{len(spans)} spans arrive at {where} instead of {times * sum(map(len, c['spans'][k]))}"
                elif kind == "logs":
                    logs = sorted(l[0] for p in parts for l in p["logs"] if str(l[0]).startswith(f"r{k}l"))
                    sent = sorted(times * [f"r{k}l{i}" for i in range(r["logs"])])
                    if logs != sent and not (small and len(logs) < len(sent) and not set(logs) - set(sent)):
                        return f"records {logs} arrive of {r['logs']} at {where}"
                    if any(sum(len(p["logs"]) for p in x[kind]) > cfg["batch"] for x in got):
                        return f"more than {cfg['batch']} records are exported at once"
                else:
                    metrics = [m for p in parts for m in p["metrics"]]
                    sums, measured = [m for m in metrics if m[0] == "counted"], [m for m in metrics if m[0] == "measured"]
                    if any(m[1:4] != ["1", "sum", 1] for m in sums) or any(m[1:4] != ["ms", "exponential", 1] for m in measured):
                        return f"metrics arrive as {metrics}"
                    points = [p for m in sums for p in m[4]]
                    if sum(p[1] for p in points) != times * sum(r["adds"]) or any(p[0] != [["of", "verif"]] for p in points):
                        return f"{r['adds']} counted in round {k} arrive as {points} at {where}"
                    points = [p for m in measured for p in m[4]]
                    if sum(p[1] for p in points) != times * len(r["records"]) or sum(p[2] for p in points) != times * sum(r["records"]):
                        return f"{r['records']} measured in round {k} arrive as {points} at {where}"
        strays = [x for x in o["seen"] if x["kind"] == kind and x["target"] not in targets]
        if strays:
            return f"{kind} arrive at {strays[0]['target'][0]} with {sorted(strays[0]['target'][1])} and not only at {[(t[0], sorted(t[1])) for t in targets]}"

def kinds(x):
    """What a request holds: all three are read from its bytes, and only one of them makes sense."""
    def things(kind, name):
        v = x[kind]
        return [] if isinstance(v, dict) else [t for p in v for t in p.get(name, [])]
    if any(isinstance(t[0], str) and t[0][:1] == "r" and t[1] for t in things("logs", "logs")):
        return "logs"
    if any(s["name"][:1] == "r" and len(s["trace"]) == 32 for s in things("traces", "spans")):
        return "traces"
    if any(m[0] in ("counted", "measured") for m in things("metrics", "metrics")):
        return "metrics"
    return "none"

def t02(run):
    rnd = random.Random(run.seed)
    for b in range(1 if run.quick else 6):
        r = tlc.simulate_many("Exports", 8000 if run.quick else 30000, 8, run.seed + 7 * b, depth=101, invariants=["OwnFirst", "Decided", "Told"], timeout=1800)
        run.model("Exports", r)
        reqs, alltraces = [], []
        for c in r["cases"]:
            traces = [[f"{(rnd.randrange(2**64) << 64) + (s['fraction'] << 61) + rnd.randrange(1, 2**50):032x}" for s in q["spans"]] for q in c["rounds"]]
            alltraces.append(traces)
            reqs.append({"op": "exports", "toml": configuration(c["config"], rnd), "rounds": [dict(q, spans=[dict(s, trace=t) for s, t in zip(q["spans"], ts)]) for q, ts in zip(c["rounds"], traces)]})
        for c, rq, traces, o in zip(r["cases"], reqs, alltraces, harness.run(reqs)):
            run.validated(1, [q["spans"] for q in c["rounds"]] if run.traces % 300 == 5 else None)
            if "seen" not in o:
                run.violation(f"exporting with a valid configuration fails: {str(o)[:300]}", {"request": rq, "observed": o})
                continue
            if o["errors"]:
                run.violation(f"exports fail: {str(o['errors'])[:300]}", {"request": rq, "observed": o})
                continue
            for x in o["seen"]:
                x["kind"] = kinds(x)
                x["target"] = (x["line"].split(" ")[1], frozenset((n, v) for n, v in (x["headers"].items() if isinstance(x["headers"], dict) else x["headers"]) if n.startswith("x-")))
            wrong = wrong_exports(c, traces, o)
            if wrong:
                for x in o["seen"]:
                    x["target"] = [x["target"][0], sorted(x["target"][1])]
                run.violation(wrong, {"request": rq, "observed": o, "expected": c})

CHECKS = {"T01": t01, "T02": t02}
NOTES = {"T01": ("LogRecords.tla", "Simulated histories of nine steps: spans up to three deep, with and without remote parents, and events with up to 56 fields of every type, with texts of one- to four-byte characters around the limits. "
                 "Records are observed by a log processor behind the real layer, in a subscriber with the real OpenTelemetry span layer. Unsampled traces and the flags of traces are not observed."),
         "T02": ("Exports.tla", "Sampled configurations and histories of two flushed rounds, exported by the real providers over HTTP to a collector on the loopback network, whose requests are decoded as OTLP. gRPC, TLS, stdout, time-outs, full queues and collectors that fail are not explored.")}
