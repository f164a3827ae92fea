"""C25: the array functions.  VecMath.tla is an exhaustively explored machine of
integer registers, WindowTable.tla the windowed functions, VecTerms.tla the
functions of real numbers; every transition and table entry is replayed, for
several types, in place and out of place, by every overload."""
import random
from decimal import Decimal
from vlib import core, layers, net, tour

ALL = '{"relu","relu1","tanhopt","sigopt","eluopt","mulc","sumc","mulv","sumv","mse1","matmul","softopt","read"}'


def command(o):
    op, d, a, b, k = o["op"], o["d"] - 1, o["a"] - 1, o["b"] - 1, o["k"]
    if op in ("mulv", "sumv", "softopt"):
        return "%s %d %d %d" % (op, d, a, b)
    if op in ("mulc", "sumc", "eluopt"):
        return "%s %d %d %d" % (op, d, a, k)
    if op == "mse1":
        return "mse1 %d %d %d %d" % (d, a, b, k)
    if op == "matmul":
        rows, cols = len(k), len(k[0]) if k else 0
        return "matmul %d %d %d %d %s" % (d, a, rows, cols, " ".join(str(x) for r in k for x in r))
    if op in ("max", "argmax", "maxarg"):
        return "%s %d" % (op, a)
    if op == "mse":
        return "mse %d %d" % (a, b)
    if op == "index":
        return "index %d %d" % (a, k)
    return "%s %d %d" % (op, d, a)


def agrees(o, x, n, kind):
    r, op = o["r"], o["op"]
    if not isinstance(r, dict):
        return x == r
    at = [i - 1 for i in r["at"]]
    if op == "max":
        return x == r["v"]
    if op == "argmax":
        return x in at
    if op == "maxarg":
        return isinstance(x, list) and x[0] == r["v"] and x[1] in at
    if op == "index":
        return x in at if at else x == -1
    # the mean is a quotient: of whole numbers when the type is
    mean = r["v"] // n if kind == "int" else r["v"] / n
    return isinstance(x, list) and x[1] == r["v"] and net.close(mean, x[0], 1e-6 if kind == "float" else 1e-15)


def registers(ctx, b, name, **defs):
    cfg = "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bound\nINVARIANTS MseSlope SoftShift\nPROPERTIES Frame Refused\nACTION_CONSTRAINT Emit\n"
    r = core.tlc("VecMath", cfg, defs=dict(defs, Ops=ALL), heap="8g", coverage=True)
    ctx.count_tlc(r, name)
    rnd = random.Random(ctx.seed)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    r.prints = None
    cases, walks = [], []
    for k, (s0, steps) in enumerate(g.walks(rnd, 60)):
        t = ("double", "int", "float", "long")[k % 4]
        v = g.states[s0]
        cases.append(["type " + t, "regs %d %s" % (len(v), " ".join(net.vec(x) for x in v))] + [command(o) for _, o, _ in steps])
        walks.append((t, s0, steps))
    for c, (t, s0, steps), got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        for i, x in enumerate(got[1:]):
            o, s = (dict(r="ok", op="regs"), s0) if i == 0 else (steps[i - 1][1], steps[i - 1][2])
            if "crash" in x or x.get("s") != g.states[s] or not agrees(o, x.get("r"), defs["N"], t):
                ctx.violation("%s of %s registers: %s: expected %s and %s, code gives %s" % (t, name, c[i + 1], o["r"], g.states[s], x),
                              {"harness": "h_math", "commands": c[:i + 2], "expected": [o["r"], g.states[s]]})
                break
    ctx.traces(len(cases))
    ctx.sample({"walk": cases[len(cases) // 2][:6]})
    ctx.log(name, r.distinct, "states", r.states, "transitions", len(cases), "walks")


def windows(ctx, b, name, box):
    r = core.tlc("WindowTable", "SPECIFICATION Spec\n", defs=dict(Layers=box), heap="8g")
    ctx.count_tlc(r, name)
    cases, exp = [], []
    for k, p in enumerate(r.prints):
        L = p["L"]
        y = [v / (L["kh"] * L["kw"]) for v in p["y"]] if L["kind"] == "avg" else p["y"]
        t = "double" if L["kind"] == "avg" else ("double", "int", "float")[k % 3]
        cases.append(["type " + t, "win %s %s %d %s %s" % (L["kind"], " ".join(str(L.get(f, {"f": 1}.get(f, 0))) for f in ("h", "w", "c", "kh", "kw", "sh", "sw", "ph", "pw", "f")),
                                                         len(y), net.vec(p["x"]), net.vec(p["k"]))])
        exp.append(y)
    for c, y, got in zip(cases, exp, core.run_cases(b, cases)):
        if got is None:
            continue
        if not isinstance(got[1], list) or any(not isinstance(v, list) or len(v) != len(y) or not all(net.close(e, x, 1e-14) for e, x in zip(y, v)) for v in got[1]):
            ctx.violation("%s %s: expected %s, code gives %s" % (c[0], c[1], y, got[1]), {"harness": "h_math", "commands": c, "expected": y})
    ctx.traces(len(cases))
    ctx.log(name, len(cases), "windowed functions")


def reals(ctx, b, T):
    r = core.tlc("VecTerms", "SPECIFICATION Spec\n", defs=dict(Widths="1..%d" % (6 if T else 4), Alphas="{0,1,2,4,6}"))
    ctx.count_tlc(r, "terms")
    rnd = random.Random(ctx.seed)
    cases, want = [], []

    def add(t, name, k, xs, gs, terms, total=False):
        cases.append(["type " + t, "fn %s %s %s %s" % (name, float(k).hex(), net.vec(xs), net.vec(gs))])
        X, D = [Decimal(v) for v in xs], [Decimal(v) for v in gs]
        y = [layers.term(f, X, D) for f in terms]
        # the size of what is added up decides how much the last digits may differ
        scale = [max(abs(v), Decimal(0)) for v in y]
        if name == "softmax1":
            s = [layers.term(f, X, D) for f in soft[len(xs)]]
            scale = [s[i] * (abs(D[i]) + sum(abs(d) * p for d, p in zip(D, s))) for i in range(len(xs))]
        if name in ("tanh1", "sigmoid1", "elu1"):
            scale = [max(v, Decimal(float(k)) if name == "elu1" else Decimal(1)) for v in scale]
        if name == "stable":             # the differences to the greatest input are rounded
            scale = [v * (1 + max(abs(x) for x in X)) for v in scale]
        if name == "elu":
            scale = [max(v, Decimal(float(k))) for v in scale]
        want.append((t, y, scale))

    soft = {p["n"]: p["f"] for p in r.prints if p["k"] == "softmax"}
    for p in r.prints:
        n = p["n"]
        for j in range(60 if T else 24):
            t = "double" if j % 4 else "float"
            lim = 8 if t == "float" else 20
            rand = lambda m: [(rnd.choice((rnd.uniform(-m, m), rnd.uniform(-1, 1), float(rnd.randint(-3, 3))))) for _ in range(n)]
            xs = rand(lim)
            gs = [rnd.uniform(-4, 4) for _ in range(n)]
            if t == "float":
                xs, gs = [round(x * 64) / 64 for x in xs], [round(x * 64) / 64 for x in gs]
            ones = [1.0] * n
            if p["k"] == "xent":
                ys = [rnd.choice((0.0, 1.0, 0.25, 2.0)) for _ in range(n)]
                es = [rnd.choice((0.5, 1.0, 0.125, 2.0 ** -30, rnd.uniform(0.01, 1))) for _ in range(n)]
                if t == "double":
                    add(t, "xent", 0, ys, es, p["f"])
                    nrm = rnd.choice((1.0, 0.5, -2.0))
                    add(t, "xent1", nrm, ys, es, [["*", ["n", int(nrm * 2), 2], f] for f in p["g"]])
                continue
            if p["k"] == "softmax":
                add(t, "softmax", 0, xs, [], p["f"])
                add(t, "stable", 0, rand(lim if t == "float" else 700), [], p["f"]) if t == "double" else add(t, "stable", 0, xs, [], p["f"])
                add(t, "softmax1", 0, xs, gs, p["g"])
                continue
            big = [rnd.choice((x, x, 700.0, -700.0, 40.0, -40.0)) for x in xs] if t == "double" and j % 3 == 0 else xs
            if p["k"] == "elu":
                big = [x if x != 0 else 1.0 for x in big]
            if j == 0 and not any(x == 0 for x in xs):
                layers.self_check(p["f"], p["g"], n, xs)
            add(t, p["k"], p["al"] / 4, big, [], p["f"])
            add(t, {"sigmoid": "sigmoid1", "tanh": "tanh1", "elu": "elu1"}[p["k"]], p["al"] / 4, big, ones, p["g"])
    # one argument far from the others, wherever it is
    for p in r.prints:
        for far, near in ((700.0, -700.0), (-700.0, 700.0), (1e4, 0.0), (-1e4, 3.0), (1e5, -1e5)) if p["k"] == "softmax" else ():
            for k in range(p["n"]):
                add("double", "stable", 0, [far if i == k else near for i in range(p["n"])], [], p["f"])
    for c, (t, y, scale), got in zip(cases, want, core.run_cases(b, cases)):
        if got is None:
            continue
        x = got[1]
        tol = Decimal(3e-6 if t == "float" else 2e-14)
        for form, v in x.items() if isinstance(x, dict) else ():
            e, sc = (y, scale) if form != "total" else ([sum(y)], [sum(scale)])
            if "crash" in x or not isinstance(v, list) or len(v) != len(e) or any(
                    isinstance(a, str) and a in ("nan", "inf", "-inf") or abs(Decimal(net.val(a)) - w) > tol * s + Decimal(2) ** -1000 for a, w, s in zip(v, e, sc)):
                ctx.violation("%s, %s %s: expected %s, code gives %s" % (c[1], t, form, [float(w) for w in e], v),
                              {"harness": "h_math", "commands": c, "expected": [float(w) for w in e]})
                break
    ctx.traces(len(cases))
    ctx.log("reals", len(cases), "cases")


def run(ctx):
    b = core.build("h_math")
    T = ctx.thorough
    M2 = "{<<<<1,2>>,<<-1,1>>>>,<<<<2,-1>>>>,<<<<1>>,<<-2>>>>,<<>>}"
    M3 = "{<<<<1,2,3>>,<<-1,1,-1>>,<<0,1,2>>>>,<<<<1,2>>,<<3,-1>>,<<2,2>>>>,<<<<1,-1,2>>>>}"
    lim = 3 if T else 2
    jobs = [(registers, "two by two", dict(R=2, N=2, Low=-2, High=lim, Scalars="{-1,2}", Matrices=M2)),
            (registers, "three by one", dict(R=3, N=1, Low=-lim, High=lim, Scalars="{-1,0,2}", Matrices="{<<<<1>>>>,<<<<-2>>>>,<<<<>>>>}")),
            (registers, "two by three", dict(R=2, N=3, Low=-1, High=1, Scalars="{-1,2}", Matrices=M3)),
            (registers, "empty", dict(R=2, N=0, Low=-1, High=1, Scalars="{-1,2}", Matrices="{<<>>}"))]
    if T:
        jobs.append((registers, "three by two", dict(R=3, N=2, Low=-1, High=1, Scalars="{-1,2}", Matrices=M2)))
    h = "(M.h * 3 + M.w * 5 + M.c * 7 + M.kh * 11 + M.kw * 13 + M.sh * 17 + M.sw * 19%s + %d)"
    fit = "M.kh <= M.h + 2 * M.ph /\\ M.kw <= M.w + 2 * M.pw"
    jobs.append((windows, "correlations", dict(box=layers.box("conv", (1, 2, 3, 4), (1, 2, 3, 4), (1, 2), (1, 2, 3), (1, 2, 3), (0, 1, 2), (1, 2),
                cond="%s /\\ %s %% %d = 0" % (fit, h % (" + M.ph * 23 + M.pw * 29 + M.f * 31", ctx.seed), 11 if T else 47)))))
    for k in ("max", "avg"):
        jobs.append((windows, k, dict(box=layers.box(k, range(1, 6), range(1, 6), (1, 2), (1, 2, 3), (1, 2, 3),
                    cond="M.kh <= M.h /\\ M.kw <= M.w /\\ %s %% %d = 0" % (h % ("", ctx.seed), 3 if T else 17)))))
    ctx.each(lambda f, name, kw: f(ctx, b, name, **kw), jobs)
    reals(ctx, b, T)
    ctx.assumptions.append("real-number results may differ in the last digits (2e-14 of the summands for double, 3e-6 for float); the estimate 0 of a cross entropy is not differentiated")
