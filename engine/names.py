"""Private functions and fields under new names: brought back to the names the checks know them by.
A function counts as renamed when its signature and its whole body are those of a function that is gone."""
import json, os, re
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")

def sig(f, types):
    return [types[f["locals"][i][0]].get("s") for i in range(f["argc"] + 1)] + [f.get("impl_self")]
def shape(f, fns, types):
    """the body without names of local functions and positions in the source"""
    def go(x):
        if isinstance(x, dict):
            if "path" in x and "inst" in x and x["inst"] is not None and x["inst"] in fns and fns[x["inst"]]["local"]:
                return ["local", sig(fns[x["inst"]], types)]
            if "path" in x: return ["fn", re.sub(r"\{[^}]*\}", "", x["path"])]
            return [[k, go(v)] for k, v in sorted(x.items()) if k not in ("sp", "id", "inst", "span")]
        if isinstance(x, list): return [go(e) for e in x]
        if isinstance(x, str) and re.match(r"^\S+\.rs:\d+:\d+", x): return "@"
        if isinstance(x, int): return 0
        return x
    import hashlib
    return hashlib.sha256(json.dumps(go([f["blocks"]])).encode()).hexdigest()[:24]
def describe(dump):
    types = dump["types"]; fns = {f["id"]: f for f in dump["fns"]}
    F = {}
    for f in dump["fns"]:
        if f["local"] and not f["closure"] and not f["gargs"]: F[f["path"]] = [sig(f, types), shape(f, fns, types)]
    T = {}
    for t in types:
        if t["k"] == "adt" and t.get("local") and t.get("kind") == "struct" and not t["args"]:
            T[t["path"]] = [[x[0], types[x[1]].get("s")] for x in t["variants"][0]["fields"]]
    return {"fns": F, "structs": T}
def restore(dump):
    try: base = json.load(open(BASE))
    except OSError: return dump
    types = dump["types"]; fns = {f["id"]: f for f in dump["fns"]}
    for t in types:
        if t["k"] == "adt" and t.get("path") in base["structs"]:
            b = base["structs"][t["path"]]; fs = t["variants"][0]["fields"]
            if len(b) == len(fs) and [x[1] for x in b] == [types[x[1]].get("s") for x in fs]:
                old, new = [x[0] for x in b], [x[0] for x in fs]
                if all(n == o or n not in old and not x[2] for n, o, x in zip(new, old, fs)):
                    for x, o in zip(fs, old): x[0] = o
    here = {f["path"] for f in dump["fns"]}
    gone = {p: d for p, d in base["fns"].items() if p not in here}
    fresh = [f for f in dump["fns"] if f["local"] and not f["closure"] and not f["gargs"] and f["path"] not in base["fns"]]
    if not gone or not fresh: return dump
    m = {}
    desc = [(f["path"], [sig(f, types), shape(f, fns, types)]) for f in fresh]
    for p, d in gone.items():
        c = [q for q, e in desc if e == d]
        if len(c) == 1 and sum(1 for e in gone.values() if e == d) == 1: m[c[0]] = p
    if not m: return dump
    def name(s):
        for q, p in m.items():
            if s == q or s.startswith(q + "::"): return p + s[len(q):]
        return s
    def go(x):
        if isinstance(x, dict): return {k: go(v) for k, v in x.items()}
        if isinstance(x, list): return [go(e) for e in x]
        if isinstance(x, str) and "::" in x: return name(x)
        return x
    return go(dump)
if __name__ == "__main__":
    import extract
    d, _ = extract.extract()
    json.dump(describe(d), open(BASE, "w"), indent=0, sort_keys=True)
    print(len(describe(d)["fns"]), "functions", len(describe(d)["structs"]), "structs")
