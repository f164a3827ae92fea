"""C05: JSON items are values.  TLC explores JsonStore.tla and prints every
transition; walks over all of them are replayed through the interface, the
result and the complete state of every handle compared after each call."""
import random
from vlib import core, tour

CFG = ("SPECIFICATION Spec\nVIEW View\nPROPERTIES Local Pure Frame ReadBack\n"
       "ACTION_CONSTRAINT Emit\nINVARIANT EmitDone\n")
TYPES = {"7": "INT", "x": "STRING", "": "NONE", "true": "BOOL"}


def build(t):
    if t["k"] == "none":
        return "N"
    if t["k"] == "leaf":
        return "Ks " + core.hx(t["v"])
    if t["k"] == "list":
        return "A %d %s" % (len(t["s"]), " ".join(build(x) for x in t["s"]))
    m = t["m"] if isinstance(t["m"], dict) else {}
    return "D %d %s" % (len(m), " ".join(core.hx(k) + " " + build(x) for k, x in m.items()))


def dump(t):
    if t["k"] == "none":
        return None
    if t["k"] == "leaf":
        return {"v": t["v"], "y": TYPES[t["v"]]}
    if t["k"] == "list":
        return {"s": [dump(x) for x in t["s"]]}
    m = t["m"] if isinstance(t["m"], dict) else {}
    return {"d": {k: dump(x) for k, x in m.items()}}


def path(h, p):
    return "%d %d %s" % (h - 1, len(p), " ".join(str(s["i"]) if s["i"] >= 0 else core.hx(s["k"]) for s in p))


def num(t):
    return 7 if t == "7" else 0 if t == "" else None


def command(o):
    n, a, r = o["op"], o["a"], o["r"]["r"]
    if n == "set":
        return "set %s %s" % (path(a[0], a[1]), build(a[2])), r
    if n in ("touch", "get", "size"):
        return "%s %s" % (n, path(a[0], a[1])), r
    if n in ("assign", "append", "copy", "eq"):
        return "%s %s %s" % (n, path(a[0], a[1]), path(a[2], a[3])), r
    w = a[2]
    c = "as %s %s" % (path(a[0], a[1]), w)
    if r == "err" and a and o["r"] == {"r": "err"}:
        return c, "err"
    if w == "int":
        return c, num(r)
    if w == "vec":
        return c, [num(x) for x in r]
    if w == "map":
        return c, {k: num(x) for k, x in r.items()} if isinstance(r, dict) else {}
    return c, r


def agree(e, g):
    if e == "err":
        return g == {"ex": "error"}
    if e is None:
        return not (isinstance(g, dict) and "ex" in g)
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(x is None or x == y for x, y in zip(e, g))
    if isinstance(e, dict):
        return isinstance(g, dict) and set(e) == set(g) and all(x is None or x == g[k] for k, x in e.items())
    return type(e) == type(g) and e == g


def explore(ctx, b, rnd, name, defs):
    r = core.tlc("JsonStore", CFG, coverage=True, defs=defs, heap="10g")
    ctx.count_tlc(r, name)
    ctx.log(name, r.distinct, "states", r.states, "transitions %.1fs" % r.wall)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    r.prints = []
    dumps = [[dump(t) for t in s] for s in g.states]
    cases, walks = [], []
    for s0, steps in g.walks(rnd):
        cases.append(["init %d %s" % (len(g.states[s0]), " ".join(build(t) for t in g.states[s0]))]
                     + [command(o)[0] for _, o, _ in steps])
        walks.append((s0, steps))
    for c, (s0, steps), got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        if got[0] != dumps[s0]:
            ctx.violation("building %s gives %s" % (dumps[s0], got[0]), {"harness": "h_json", "commands": c[:1], "expected": dumps[s0]})
            continue
        for i, ((_, o, s1), x) in enumerate(zip(steps, got[1:])):
            e = command(o)[1]
            if "crash" in x or not agree(e, x.get("r")) or x.get("s") != dumps[s1]:
                ctx.violation("%s after %d calls: expected %s and %s, code gives %s" % (o, i, e, dumps[s1], x),
                              {"harness": "h_json", "commands": c[:i + 2], "expected": [e, dumps[s1]]})
                break
    ctx.traces(len(cases))
    ctx.cov["longest_walk"] = max(ctx.cov.get("longest_walk", 0), max(len(s) for _, s in walks))
    ctx.sample({"walk": [c for c in cases[0][:6]]})


def run(ctx):
    b = core.build("h_json")
    rnd = random.Random(ctx.seed)
    T = ctx.thorough
    explore(ctx, b, rnd, "two handles", dict(H=2, LeafTexts='{"7"}', KeySet='{"a"}', MaxNodes=5 if T else 4, MaxList=2, MaxPath=1))
    explore(ctx, b, rnd, "nested", dict(H=1, LeafTexts='{"7"}' if not T else '{"7","x"}', KeySet='{"a"}', MaxNodes=5 if T else 4, MaxList=2, MaxPath=2))
    explore(ctx, b, rnd, "keys and texts", dict(H=1, LeafTexts='{"7","x",""}' if T else '{"x",""}', KeySet='{"a","b"}', MaxNodes=4 if T else 3, MaxList=2, MaxPath=1))
    ctx.assumptions.append("every public call is one atomic step; sources of assignments are looked up after the destination was navigated to")
