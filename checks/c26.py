"""C26: initialisation.  TLC explores InitRun.tla, whose state says where every
learned value comes from; walks are replayed and the values of equal origin must
be equal, those of related origin related by the spread the specification gives.
The random helpers are judged by TLC on what they answered (Draws.tla)."""
import json, math, os, random, tempfile
from vlib import core, models, net, tour
from vlib.models import CONV, D, LI, MAX, MSE, R

RNN = lambda i, o, h: {"kind": "rnn", "in": i, "out": o, "hid": h, "steps": 2}
TOL = 1e-12


def given(groups, i, j):
    n = sum(c for c, _ in groups)
    return [((k * 5 + i * 3 + j) % 7 - 3) / 4 for k in range(n)]


class Sources:
    """what the draws turned out to be: one sequence for each source"""
    def __init__(self):
        self.unit, self.exact = {}, {}

    def check(self, src, groups, i, where, p):
        """the values p of a layer against their origin; None or what is wrong"""
        p = [net.val(v) for v in p]
        if src["k"] == "given":
            return None if p == given(groups, i, src["j"]) else "should be the given values, is %s" % p
        at = 0
        for c, fan in groups:
            for k in range(at, at + c):
                if fan == 0:
                    if p[k] != 0.01:
                        return "bias %d is %r" % (k, p[k])
                    continue
                u = p[k] / math.sqrt(src["num"] / fan)
                if not math.isfinite(u) or src["d"] == "uniform" and abs(u) > 0.5 * (1 + TOL):
                    return "value %d is %r: out of range" % (k, p[k])
                # the draw does not depend on the rule
                e = self.unit.setdefault((where, i, k, src["d"], src["s"]), u)
                if abs(u - e) > TOL * (1 + abs(e)):
                    return "value %d is %r: %r spreads, %r before" % (k, p[k], u, e)
                # and the same call gives the same value
                x = self.exact.setdefault((where, i, k, src["d"], src["s"], src["num"]), p[k])
                if x != p[k]:
                    return "value %d is %r, was %r" % (k, p[k], x)
            at += c
        return None


def cmd(o, models_before, groups, sizes):
    if o["op"] == "init":
        return "minit %d %s %s %d" % (o["m"], o["c"], o["d"], o["s"])
    if o["op"] == "set":
        return "mset %d %d %s" % (o["m"], o["i"] - 1, net.vec(given(groups[o["i"] - 1], o["i"] - 1, o["j"])))
    if o["op"] == "step":
        return "mstep %d %s %s" % (o["m"], net.vec([0.5 + k for k in range(sizes[0])]), net.vec([1.0] * sizes[1]))
    if o["op"] == "copy":
        return "mcopy %d %d" % (o["m"], models_before + 1)
    return "massign %d %d" % (o["m"], o["f"])


def explore(ctx, b, name, layers, edges, ops, maxops, stores, maxmodels, sizes, seeds=(3, 5)):
    fwd = [[f, t] for how, f, t in edges if how in ("edge", "front")]
    r = core.tlc("InitRun", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nINVARIANT Whole\nPROPERTIES Frame OnlyValues Together\nACTION_CONSTRAINT Emit\n", coverage=True,
                 defs={"Net": net.tla(layers), "Fwd": net.tla(tuple(fwd)), "Choices": '{"auto","xavier","kaiming"}', "Dists": '{"normal","uniform"}',
                       "Seeds": net.tla(tuple(seeds)), "MaxOps": maxops, "MaxModels": maxmodels, "Stores": stores, "Ops": net.tla(tuple(ops))})
    ctx.count_tlc(r, name)
    rnd = random.Random(ctx.seed)
    groups = r.prints[0]["g"]
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    start = [p["a"] for p in r.prints if p["a"]["n"] == 0][0]
    r.prints = None
    pre = [c for k in range(1, stores + 1) for c in net.build_model(k, layers, edges, "m", [given(gr, i, k) for i, gr in enumerate(groups)])] + ["obs"]
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 40, anywhere=False, start=start):
        c = list(pre)
        for s, o, t in steps:
            c.append(cmd(o, len(g.states[s]["m"]), groups, sizes))
            if o["op"] == "set":
                c.append("obs")
        cases.append(c)
        walks.append(steps)
    src, done = Sources(), 0
    for c, steps, got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        at = len(pre) - 1
        rest, prev = {}, got[at] if isinstance(got[at], list) else []
        state = start
        for q in range(-1, len(steps)):
            o = None
            if q >= 0:
                o, state = steps[q][1], g.states[steps[q][2]]
                at += 2 if o["op"] == "set" else 1
            x = got[at]
            m = x if isinstance(x, list) else x.get("m") if isinstance(x, dict) else None
            why = None if isinstance(m, list) and len(m) == len(state["m"]) else "got %s" % x
            if not why and o and o["op"] == "init" and x.get("seed") != o["s"]:
                why = "the seed returned is %s" % x.get("seed")
            for k, (e, y) in enumerate(zip(state["m"], m or [])):
                for i, (s, l) in enumerate(zip(state["st"][e["s"] - 1], y["layers"])):
                    w = why or src.check(s, groups[i], i, name, l["p"])
                    if w and not why:
                        why = "model %d, layer %d (%s): %s" % (k + 1, i, l["type"], w)
                # versions: same number, same gradients and scores
                v = json.dumps([[l["g"], l.get("acc"), l.get("loss")] for l in y["layers"]])
                if not why and o and o["op"] in ("init", "set") and prev and v != prev[k]:
                    why = "gradients or scores of model %d changed" % (k + 1)
            if why:
                upto = c[:at + 1]
                ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in upto), why), {"harness": "h_net", "lib": True, "commands": upto})
                break
            prev = [json.dumps([[l["g"], l.get("acc"), l.get("loss")] for l in y["layers"]]) for y in m]
    ctx.traces(done)
    ctx.sample({"network": name, "walk": [core.show(z) for z in cases[len(cases) // 2][:len(pre) + 4]]})
    ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks")


def moments(vals):
    n = len(vals)
    mean = sum(vals) / n
    sd = math.sqrt(sum((v - mean) ** 2 for v in vals) / n)
    return mean, sd, sum(1 for v in vals if abs(v - mean) < sd) / n


def shape_of(dist, vals, center, spread):
    """None or why these many draws are not of that distribution (six deviations)"""
    n = len(vals)
    mean, sd, near = moments(vals)
    want = spread if dist == "normal" else spread / math.sqrt(12)
    share = 0.682689 if dist == "normal" else 0.577350
    if abs(mean - center) > 6 * want / math.sqrt(n):
        return "mean %g instead of %g" % (mean, center)
    if abs(sd / want - 1) > 6 / math.sqrt(n):
        return "deviation %g instead of %g" % (sd, want)
    if abs(near - share) > 6 * 0.5 / math.sqrt(n):
        return "%g of the values within a deviation instead of %g" % (near, share)
    return None


def helpers(ctx, b, T):
    n = 20000
    cases, judge = [], []
    # spreads
    for rule, num in (("xavier", 1), ("kaiming", 2)):
        for k in (1, 2, 3, 10, 784, 1000000):
            e = math.sqrt(num / k)
            cases.append((["initpar %s %d" % (rule, k)], lambda x, e=e: None if net.vclose([0, e, 0, e], x, 1e-15) else "should be mean 0 and spread %r" % e))
        for dist in ("normal", "uniform"):
            for k, seed in ((1, 5), (9, 77), (400, 3)):
                cases.append((["initdraws %s %s %d %d %d" % (rule, dist, k, seed, n)], lambda x, d=dist, e=math.sqrt(num / k): shape_of(d, [net.val(v) for v in x], 0, e)))
    for dist in ("normal", "uniform"):
        for c, w in ((0.0, 1.0), (5.0, 0.25), (-3.0, 10.0)):
            cases.append((["draws %s %r %r 11 %d" % (dist, c, w, n)], lambda x, d=dist, c=c, w=w: shape_of(d, [net.val(v) for v in x], c, w)
                          or (d == "uniform" and any(abs(net.val(v) - c) > w / 2 * (1 + 1e-12) for v in x) and "out of range") or None))
    got = core.run_cases(b, [c for c, _ in cases])
    for (c, f), x in zip(cases, got):
        if x is None:
            continue
        why = f(x[0]) if isinstance(x[0], list) else "got %s" % x[0]
        if why:
            ctx.violation("%s: %s" % (c[0], why), {"harness": "h_math", "commands": c})
    # ranges and sequences, judged by TLC
    rec, cmds = [], []
    ranges = [(a, z) for a in range(-3, 4) for z in range(a, 5)]
    reqs = []
    for t in ("int", "size", "long", "double", "float"):
        for a, z in ranges:
            if t == "size" and a < 0:
                continue
            reqs.append(["rand %s %d %d %d %d" % (t, a, z, 7 + a * 31 + z, 60 if T else 30)])
    perms = [(a, a + k) for a in (0, 1, 7) for k in range(0, 6)]
    reqs += [["perm %d %d %d %d" % (a, z, s, 40)] for a, z in perms for s in (1, 2)]
    reached = {}
    for c, x in zip(reqs, core.run_cases(b, reqs)):
        if x is None:
            continue
        w = c[0].split()
        if not isinstance(x[0], list):
            ctx.violation("%s: got %s" % (c[0], x[0]), {"harness": "h_math", "commands": c})
            continue
        if w[0] == "rand":
            # floors and ceilings keep a value on its side of a whole bound
            v = [net.val(y) for y in x[0]]
            rec.append({"k": "range", "lo": int(w[2]), "hi": int(w[3]), "v": [math.floor(y) for y in v] + [math.ceil(y) for y in v]})
            cmds.append(c)
        else:
            for v in x[0]:
                rec.append({"k": "sequence", "lo": int(w[1]), "hi": int(w[2]), "v": v})
                cmds.append(c)
                reached.setdefault((w[1], w[2]), set()).add(tuple(v))
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(rec, f)
    try:
        r = core.tlc("Draws", "SPECIFICATION Spec\n", env={"RECORDED": f.name})
    finally:
        os.unlink(f.name)
    ctx.count_tlc(r, "helpers")
    for p in r.prints:
        if not p["ok"]:
            ctx.violation("%s answers %s" % (cmds[p["i"] - 1][0], rec[p["i"] - 1]["v"]), {"harness": "h_math", "commands": cmds[p["i"] - 1]})
    if len(r.prints) != len(rec):
        raise core.CheckError("Draws judged %d of %d" % (len(r.prints), len(rec)))
    # every order of up to three values turns up among eighty draws
    for (a, z), s in reached.items():
        k = int(z) - int(a)
        if k <= 3 and len(s) != math.factorial(k):
            ctx.violation("the sequences from %s to %s are only %s" % (a, z, sorted(s)), {"harness": "h_math", "commands": ["perm %s %s 1 40" % (a, z), "perm %s %s 2 40" % (a, z)]})
    ctx.traces(len(rec) + len(cases))
    ctx.log("helpers", len(rec), "judged", len(cases), "distributions")


def unseeded(ctx, b):
    """without a seed the call returns the one it took"""
    cases = []
    pre = net.build_model(1, [D(2, 3), R(3), D(3, 1)], [("edge", 1, 2), ("edge", 2, 3)], "m", [[0] * 9, [], [0] * 4])
    for d in ("normal", "uniform"):
        cases.append(pre + ["minit 1 auto %s 0" % d, "minit 1 auto %s 0" % d])
    again = []
    for c, got in zip(cases, core.run_cases(b, cases)):
        if got is None:
            continue
        a, z = got[-2], got[-1]
        if "seed" not in a or "seed" not in z or a["seed"] == z["seed"] or a["seed"] == 0:
            ctx.violation("without a seed: %s" % [a.get("seed"), z.get("seed")], {"harness": "h_net", "lib": True, "commands": c})
            continue
        again.append((pre + [c[-1][:-1] + str(a["seed"])], a, c))
    for (c, a, _), got in zip(again, core.run_cases(b, [x[0] for x in again])):
        if got is not None and got[-1].get("m") != a["m"]:
            ctx.violation("the seed returned by an initialisation without one gives other values", {"harness": "h_net", "lib": True, "commands": c})
    ctx.traces(len(cases) + len(again))


def big(ctx, b):
    """the values of a wide layer have the spread"""
    cases, want = [], []
    for L, groups in ((D(50, 200), [[10000, 50], [200, 0]]), (CONV(4, 4, 25, 2, 2, 100), [[10000, 400], [100, 0]]),
                      (RNN(80, 80, 80), [[6400, 80], [6400, 80], [80, 0], [6400, 80], [80, 0]])):
        for rule, num in (("xavier", 1), ("kaiming", 2)):
            for d in ("normal", "uniform"):
                cases.append(["lnew 1 " + net.describe(L, "l"), "linit 1 %s %s 9" % (rule, d)])
                want.append((groups, num, d))
    for c, (groups, num, d), got in zip(cases, want, core.run_cases(b, cases)):
        if got is None:
            continue
        p = got[1].get("p") or []
        at, why = 0, None if len(p) == sum(k for k, _ in groups) else "got %s" % str(got[1])[:200]
        for k, fan in groups if not why else ():
            v = [net.val(x) for x in p[at:at + k]]
            at += k
            why = why or (None if fan and not shape_of(d, v, 0, math.sqrt(num / fan)) or not fan and all(x == 0.01 for x in v)
                          else "group at %d: %s" % (at - k, shape_of(d, v, 0, math.sqrt(num / fan)) if fan else v[:5]))
        if why:
            ctx.violation("%s: %s" % (" ; ".join(core.show(z) for z in c), why), {"harness": "h_net", "lib": True, "commands": c})
    ctx.traces(len(cases))


def run(ctx):
    T = ctx.thorough
    b, h = core.build("h_net", lib=True), core.build("h_math")
    edge = models.chain
    ALL = ("set", "step", "copy", "assign")
    k = 4 if T else 3
    nets = [
        ("dense relu dense", [D(2, 2), R(2), D(2, 1), MSE(1)], [("edge", 1, 2), ("edge", 2, 3), ("edge", 3, 4)], ALL, 3, 1, 2, (2, 1)),
        ("relu further on", [D(2, 1), LI(1), R(1), D(1, 2), MSE(2)], edge(5), ("set", "step"), 3, 1, 1, (2, 2)),
        ("two ways, one rectified", [D(1, 2), D(2, 2), R(2)], [("edge", 1, 2), ("edge", 1, 3)], ("set",), k, 1, 1, (1, 2)),
        ("rectifier reached when predicting only", [D(1, 2), R(2), D(2, 1)], [("front", 1, 2), ("front", 2, 3)], ("set",), 3, 1, 1, (1, 1)),
        ("rectifier reached when learning only", [D(1, 2), R(2), D(2, 1)], [("back", 2, 1), ("edge", 1, 3)], ("set",), 2, 1, 1, (1, 1)),
        ("convolution", [CONV(2, 3, 1, 2, 2, 2), R(4), D(4, 1), MSE(1)], edge(4), ("set", "step"), 3, 1, 1, (6, 1)),
        ("convolution alone", [CONV(2, 2, 2, 1, 2, 1), MAX(2, 1, 1, 2, 1, 1)], edge(2), ("copy",), 3, 1, 2, (8, 1)),
        ("one layer", [D(3, 2)], [], ("set", "copy", "assign"), 3, 2, 3 if T else 2, (3, 2)),
        ("recurrent", [RNN(2, 2, 3)], [], ("set", "copy"), 3, 1, 2, (2, 2)),
        ("rectifier first", [R(2), D(2, 2), R(2), D(2, 2)], edge(4), ("set",), 3, 1, 1, (2, 2)),
    ]
    ctx.each(lambda *a: explore(ctx, b, *a), nets)
    helpers(ctx, h, T)
    unseeded(ctx, b)
    big(ctx, b)
    ctx.assumptions.append("layers of one model may draw from the same source; the shape of a distribution is judged with a margin of six deviations on fixed seeds")
