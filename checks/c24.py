"""C24: blocks of cells joined and taken apart.  TLC explores BlockRun.tla and
CubeStore.tla; walks over every transition are replayed with buffers of exactly
the size the specification says between guard cells, for several types of cell."""
import random
from vlib import core, net, tour


def cube(c):
    return "%s %s" % (net.vec(c["s"]), net.vec(c["v"]))


def block_command(o, check):
    c = "%s %d %d %d %d" % (o["op"], check, o["ax"], o["off"], o["n"])
    return c + (" " + net.vec(o["src"]) if o["op"] == "append" else "")


def store_command(o):
    kind, mode = o["op"].split("-")
    if kind == "join":
        if mode == "two":
            return "join two %d %s %d" % (o["d"][0] - 1, net.vec([i - 1 for i in o["s"]]), o["ax"])
        return "join many %d %s %d" % (o["d"][0] - 1, net.vec([i - 1 for i in o["s"]]), o["ax"])
    d = net.vec([i - 1 for i in o["d"]])
    if o["r"] == "refused":
        return "badpart %s %s %d %d" % (mode, d, o["s"][0] - 1, o["ax"])
    return "part %s %s %d %d %s" % (mode, d, o["s"][0] - 1, o["ax"], net.vec(o["ks"]))


def replay(ctx, b, rnd, name, r, begin, command, value, state):
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    r.prints = None
    cases, walks = [], []
    for k, (s0, steps) in enumerate(g.walks(rnd, 40)):
        t = ("double", "int", "float", "long")[k % 4]
        cases.append(["type " + t, begin(g.states[s0])] + [command(o, rnd) for _, o, _ in steps])
        walks.append((s0, steps))
    for c, (s0, steps), got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        for i, x in enumerate(got[1:]):
            o, s = (None, s0) if i == 0 else (steps[i - 1][1], steps[i - 1][2])
            e = {"r": "ok" if i == 0 else value(o), "s": state(g.states[s])}
            if x != e:
                ctx.violation("%s: %s: expected %s, code gives %s" % (name, c[i + 1], e, x), {"harness": "h_math", "commands": c[:i + 2], "expected": e})
                break
    ctx.traces(len(cases))
    ctx.sample({"walk": cases[len(cases) // 2][:4]})
    ctx.log(name, r.distinct, "states", r.states, "transitions", len(cases), "walks")


def run(ctx):
    b = core.build("h_math")
    T = ctx.thorough

    def blocks(name, shapes, depth):
        r = core.tlc("BlockRun", "SPECIFICATION Spec\nVIEW View\nINVARIANTS Whole Layout\nPROPERTY ReadBack\nACTION_CONSTRAINT Emit\n", coverage=True,
                     defs=dict(Shapes=shapes, Depth=depth))
        replay(ctx, b, random.Random(ctx.seed), name, r, lambda s: "nd " + cube(s["b"]),
               lambda o, rnd: block_command(o, o["r"] == "refused" or rnd.random() < 0.5), lambda o: o["r"], lambda s: s["b"])

    def store(name, laws, **defs):
        r = core.tlc("CubeStore", "SPECIFICATION Spec\nVIEW View\n%sPROPERTY Frame\nACTION_CONSTRAINT Emit\n" % (
            "INVARIANTS TakenApart Glue Associative FirstSide ByPut\n" if laws else ""), coverage=True, defs=defs, heap="8g")
        replay(ctx, b, random.Random(ctx.seed), name, r, lambda s: "cubes %d %s" % (len(s["c"]), " ".join(cube(c) for c in s["c"])),
               lambda o, rnd: store_command(o), lambda o: o["r"], lambda s: s["c"])

    jobs = [(blocks, ("deeper", "{<<4>>,<<2,3>>,<<3,2>>,<<1,3,2>>,<<2,2,2>>,<<2,1,2,2>>}", 3))] if T else []
    jobs += [(blocks, ("lines and planes", "{<<4>>,<<2,3>>,<<3,2>>,<<1,4>>,<<3,1>>}", 2)),
            (blocks, ("cubes", "{<<2,2,2>>,<<1,3,2>>,<<3,1,2>>,<<2,3,1>>,<<2,2,3>>}", 2)),
            (blocks, ("four sides", "{<<2,1,2,2>>,<<2,2,1,3>>,<<1,2,2,2>>}", 2))]
    every = "{s \\in [1..3 -> 1..%d] : s[1] * s[2] * s[3] <= %d}"
    two = dict(H=2, Shapes=every % (2, 4), MaxCells=12, Depth=1, Modes='{"two","many"}')
    pick = "{<<1,1,1>>,<<2,1,1>>,<<1,2,2>>,<<2,2,1>>}"
    jobs += [(store, ("two cubes", True, two)),
             (store, ("histories", False, dict(H=2, Shapes=every % (2, 4) if T else pick, MaxCells=12, Depth=2, Modes='{"two","many"}'))),
             (store, ("many cubes", False, dict(H=3, Shapes=every % (2, 2) if T else "{<<1,1,1>>,<<1,2,1>>,<<1,1,2>>}", MaxCells=9, Depth=1, Modes='{"many"}'))),
             (store, ("empty cubes", True, dict(H=2, Shapes="{<<0,1,1>>,<<2,1,1>>,<<1,0,1>>,<<1,1,0>>,<<1,2,1>>}", MaxCells=6, Depth=1, Modes='{"two","many"}'))),
             (store, ("many empty cubes", False, dict(H=3, Shapes="{<<0,1,1>>,<<1,1,1>>,<<2,1,1>>,<<1,0,1>>,<<1,1,0>>,<<1,2,1>>}" if T else "{<<0,1,1>>,<<2,1,1>>,<<1,1,0>>}", MaxCells=6, Depth=1, Modes='{"many"}'))),
             (store, ("wide cubes", True, dict(H=2, Shapes="{<<3,2,2>>,<<1,2,2>>,<<3,1,2>>,<<3,2,1>>,<<2,3,4>>}", MaxCells=60, Depth=1, Modes='{"two","many"}')))]

    def one(f, a):
        f(*a[:-1], **a[-1]) if isinstance(a[-1], dict) else f(*a)
    ctx.each(one, jobs)
    ctx.assumptions.append("sources and destinations are different places; destinations have room for the result (the guard cells show that nothing else is written)")
