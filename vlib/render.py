"""Renders the abstract subgraphs of spec/Composition.tla as SDL."""
import json, random, zlib
FED2 = ('extend schema @link(url: "https://specs.apollo.dev/federation/v2.9", import: ["@key", "@shareable", "@external", '
        '"@requires", "@provides", "@override", "@tag", "@inaccessible", "@interfaceObject", "@authenticated", '
        '"@requiresScopes", "@policy", "@composeDirective"])')

CSCHEMAS = 'extend schema @link(url: "https://specs.grafbase.com/composite-schemas/v1", import: [%s])'
COMPOSITE = {3: CSCHEMAS % '"@lookup", "@key", "@require", "@shareable", "@is", "@derive", "@external", "@override", "@provides", "@inaccessible", "@internal"',
             4: CSCHEMAS % '"@lookup", "@require", "@is", "@derive", "@internal"'}

def ty(t):
    out = t["b"]
    for w in t["w"]:
        out = out + "!" if w == "N" else "[" + out + "]"
    return out

def sel(s):
    out = []
    for x in s:
        o = x["f"] + x["a"]
        if x["s"]:
            o += " { " + sel(x["s"]) + " }"
        out.append(o)
    return " ".join(out)

def gql(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'

def directive(d):
    n, a, s, l = d["d"], d["a"], d["s"], d["l"]
    if n == "key":
        return f"@key(fields: {gql(sel(s))}" + (", resolvable: false)" if a[0] == "false" else ")")
    if n in ("requires", "provides"):
        return f"@{n}(fields: {gql(sel(s))})"
    if n in ("require", "is"):
        return f"@{n}(field: {gql(a[0])})"
    if n == "tag":
        return f"@tag(name: {gql(a[0])})"
    if n == "deprecated":
        return "@deprecated" + (f"(reason: {gql(a[0])})" if a else "")
    if n == "override":
        return f"@override(from: {gql(a[0])}" + (f", label: {gql(a[1])})" if len(a) > 1 and a[1] else ")")
    if n == "requiresScopes":
        return "@requiresScopes(scopes: [[" + ", ".join(map(gql, l)) + "]])"
    if n == "policy":
        return "@policy(policies: [[" + ", ".join(map(gql, l)) + "]])"
    if n == "cost":
        return f"@cost(weight: {d['c']})"
    if n.startswith("@"):  # raw
        return n + (a[0] if a else "")
    return "@" + n

def dirs(ds):
    return "".join(" " + directive(d) for d in ds)

def value(a):
    return f"{a['n']}: {ty(a['t'])}" + (f" = {a['def'][0]}" if a["def"] else "") + dirs(a["dirs"])

def field(f):
    args = "(" + ", ".join(map(value, f["args"])) + ")" if f["args"] else ""
    return f"{f['n']}{args}: {ty(f['t'])}" + dirs(f["dirs"])

KW = {"object": "type", "interface": "interface", "input": "input", "enum": "enum", "union": "union", "scalar": "scalar"}

def typedef(t, ext=False):
    head = ("extend " if ext else "") + KW[t["k"]] + " " + t["n"]
    if t["impl"]:
        head += " implements " + " & ".join(t["impl"])
    head += dirs(t["dirs"])
    if t["k"] in ("object", "interface"):
        return head + (" {\n" + "".join(f"  {field(f)}\n" for f in t["fields"]) + "}" if t["fields"] else "")
    if t["k"] == "input":
        return head + (" {\n" + "".join(f"  {value(f)}\n" for f in t["fields"]) + "}" if t["fields"] else "")
    if t["k"] == "enum":
        return head + (" {\n" + "".join(f"  {v['n']}{dirs(v['dirs'])}\n" for v in t["vals"]) + "}" if t["vals"] else "")
    if t["k"] == "union":
        return head + (" = " + " | ".join(t["members"]) if t["members"] else "")
    return head

def split(t, r):
    """The same type as a definition and an extension of it: (definition, extension)."""
    base, ext = dict(t), dict(t)
    keys = r.random() < 0.5
    def part(k):
        xs = t[k]
        first = [r.random() < 0.5 for _ in xs]
        if k == "dirs":  # the order of the keys of a type is significant
            first = [f if x["d"] != "key" else keys for x, f in zip(xs, first)]
        base[k] = [x for x, f in zip(xs, first) if f]
        ext[k] = [x for x, f in zip(xs, first) if not f]
    for k in ("dirs", "impl", "fields", "vals", "members"):
        part(k)
    body = {"object": "fields", "interface": "fields", "input": "fields", "enum": "vals", "union": "members", "scalar": "dirs"}[t["k"]]
    if not base[body] and t["k"] != "scalar":
        base[body], ext[body] = ext[body][:1], ext[body][1:]
    if not any(ext[k] for k in ("dirs", "impl", "fields", "vals", "members")):
        return base, None
    return base, ext

def subgraph(sg, r=None):
    """r: a generator of random numbers, to spread some types over definitions and extensions in any order."""
    seen, out = set(), []
    for t in sg["types"]:
        isext = t.get("ext", t["n"] in seen)
        seen.add(t["n"])
        e = None
        if r and not isext and r.random() < 0.5:
            t, e = split(t, r)
        out.append(typedef(t, ext=isext))
        if e:
            out.append(typedef(e, ext=True))
    if r:
        r.shuffle(out)
    if sg.get("head"):
        out.insert(0, sg["head"])
    if sg["fed"] in COMPOSITE:
        out.insert(0, COMPOSITE[sg["fed"]])
    if sg["fed"] in (2, 4):
        out.insert(0, FED2)
    return "\n".join(out) + "\n"

def request(sgs, want=("fed", "api")):
    """Two requests in five spread definitions over extensions: composition must not tell the difference."""
    key = json.dumps(sgs, sort_keys=True)
    h = zlib.crc32(key.encode())
    r = random.Random(h) if h % 5 < 2 else None
    return {"op": "compose", "subgraphs": [{"name": g["name"], "sdl": subgraph(g, r)} for g in sgs], "want": list(want)}
