"""C23: RecurrentRun.tla, histories of a recurrent layer with exact results,
replayed; the same histories with real numbers against RecurrentTerms.tla."""
import random
from decimal import Decimal
from vlib import core, net, tour
from vlib.layers import term
from vlib.models import MSE


def count(I, O, H):
    return H * I + H * H + H + O * H + O


def saturated(I, O, H, j, keep=True):
    """learned values: multiples of 32 up to the activation, small integers after"""
    rnd = random.Random(1000 * j + 100 * I + 10 * O + H)
    n = H * I + H * H
    while True:
        p = [32 * rnd.choice((-2, -1, -1, 0, 1, 1, 2)) for _ in range(n)]
        if any(p[:H * I]) and (not keep or any(p[H * I:])):
            break
    return p + [32 * rnd.choice((-1, 0, 0, 1)) for _ in range(H)] + [rnd.choice((-3, -2, -1, 1, 2, 3)) for _ in range(O * H)] + [rnd.choice((-1, 0, 2)) for _ in range(O)]


class Terms:
    """the functions of RecurrentTerms.tla for every number of steps"""

    def __init__(self, ctx, I, O, H, steps):
        self.size, self.t = (I, O, H), {}
        for T in steps:
            r = core.tlc("RecurrentTerms", "SPECIFICATION Spec\n", defs={"I": I, "O": O, "H": H, "T": T})
            self.t[T] = r.prints[0]

    def run(self, p, h, xs, T):
        v = [Decimal(a) for a in list(p) + list(xs) + list(h)]
        f = self.t[T]
        return [term(u, v, None) for u in f["out"]], [term(u, v, None) for u in f["hid"]]

    def back(self, p, h, xs, T, d):
        v = [Decimal(a) for a in list(p) + list(xs) + list(h)]
        f, d = self.t[T], [Decimal(a) for a in d]
        dot = lambda s: sum((a * term(u, v, None) for a, u in zip(d, s)), Decimal(0))
        return [dot(s) for s in f["dx"]], [dot(s) for s in f["dp"]]

    def check(self, rnd):
        """derivatives against difference quotients"""
        I, O, H = self.size
        e = Decimal(10) ** -20
        for T, f in self.t.items():
            n = count(I, O, H)
            v = [Decimal(rnd.uniform(-1, 1)) for _ in range(n + T * I + H)]
            for m, s in enumerate(f["dp"] + f["dx"]):
                up, dn = list(v), list(v)
                up[m] += e
                dn[m] -= e
                for k, u in enumerate(s):
                    q = (term(f["out"][k], up, None) - term(f["out"][k], dn, None)) / (2 * e)
                    if abs(q - term(u, v, None)) > Decimal(10) ** -15 * (1 + abs(q)):
                        raise core.CheckError("RecurrentTerms: derivative of output %d by variable %d is %s, not %s" % (k, m, q, term(u, v, None)))


def cmd(o, f=lambda v: v):
    k, c = o["op"], o["c"]
    if k == "set":
        return "lhid %d %s" % (c, net.vec(f(o["v"])))
    if k == "reset":
        return "lhreset %d" % c
    if k == "steps":
        return "lsteps %d %d" % (c, o["t"])
    if k == "clone":
        return "lclone %d %d" % (c, o["d"])
    if k == "back":
        return "lbwd %d %s" % (c, net.vec(f(o["d"])))
    return "%s %d %s" % ("lfwd" if k == "eval" else "ltrain", c, net.vec(f(o["x"])))


def explore(ctx, b, name, I, O, H, j, inputs, steps, states, handles, ops, maxops, start, smooth=0):
    P = saturated(I, O, H, j)
    r = core.tlc("RecurrentRun", "SPECIFICATION Spec\nVIEW View\nPROPERTIES Elsewhere OnlyHow Linear\nACTION_CONSTRAINT Emit\n", coverage=True, heap="8g",
                 defs={"I": I, "O": O, "H": H, "P": net.tla(P), "Inputs": net.tla(tuple(inputs)), "Steps": net.tla(tuple(steps)), "States": net.tla(tuple(states)),
                       "Grads": net.tla([1, -2, 0, 3, 1, 0, 0, -1]), "Handles": net.tla(tuple(range(1, handles + 1))), "Ops": net.tla(tuple(ops)), "MaxOps": maxops, "Start": start})
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    start_state = next(s for s in g.states if s["alive"] == [1] and s["T"][0] == start and not any(map(any, s["h"])) and not any(map(any, s["g"])) and not s["run"][0] and s["k"] == 0)
    rnd = random.Random(ctx.seed)
    L = {"kind": "rnn", "in": I, "out": O, "hid": H, "steps": start}
    cases, walks = [], []
    for s0, steps_ in g.walks(rnd, 60, anywhere=False, start=start_state):
        c = ["lnew 1 " + net.describe(L, "l"), "lset 1 " + net.vec(P)]
        for _, o, t in steps_:
            t = g.states[t]
            c.append(cmd(o))
            for a in t["alive"]:
                c += ["lshow %d" % a, "lclone %d %d" % (a, 90), "lsteps 90 1", "lfwd 90 " + net.vec([1 if m % 2 else -1 for m in range(I)])]     # a copy shows the state
        cases.append(c)
        walks.append(steps_)
    done = 0
    for c, steps_, got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        at, why = 2, None
        for _, o, t in steps_:
            t = g.states[t]
            x, n = got[at], at + 1 + 4 * len(t["alive"])
            if o["ok"] != ("ex" not in x and "crash" not in x):
                why = "gives %s" % x
            elif "y" in o and not net.vclose(o["y"], x["r"]):
                why = "gives %s, should be %s" % (x["r"], o["y"])
            elif x.get("input_changed"):
                why = "changed its input"
            for m, a in enumerate(t["alive"]):
                shown, pr = got[at + 1 + 4 * m], got[at + 4 + 4 * m]
                if why or "p" not in shown or "r" not in pr:
                    why = why or "leaves layer %d unusable: %s" % (a, [y for y in (shown, pr) if "crash" in y or "ex" in y][:1])
                elif not net.vclose(P, shown["p"]):
                    why = "changed the learned values of layer %d to %s" % (a, shown["p"])
                elif not net.vclose(t["g"][a - 1], shown["g"]):
                    why = "leaves layer %d with gradients %s, should be %s" % (a, shown["g"], t["g"][a - 1])
                elif not net.vclose(t["pr"][a - 1], pr["r"]):
                    why = "leaves layer %d in a state other than %s: it then gives %s, should be %s" % (a, t["h"][a - 1], pr["r"], t["pr"][a - 1])
                elif len(shown["y"]) != O * t["T"][a - 1] or len(shown["ig"]) != I * t["T"][a - 1]:
                    why = "leaves layer %d with %d outputs and %d input gradients for %d steps" % (a, len(shown["y"]), len(shown["ig"]), t["T"][a - 1])
            if why:
                ctx.violation("%s: '%s' %s" % (name, core.show(c[at]), why), {"harness": "h_net", "lib": True, "commands": c[:n]})
                break
            at = n
    ctx.traces(done)
    if cases:
        ctx.sample({"recurrent layer": name, "history": [core.show(x) for x in cases[len(cases) // 3] if not x.startswith(("lshow", "lclone 1 90", "lsteps 90", "lfwd 90"))][:14]})
    ctx.log(name, r.distinct, "states", len(r.prints), "transitions", len(cases), "walks")
    if smooth:
        reals(ctx, b, name, I, O, H, L, [[(o, g.states[t]) for _, o, t in w] for w in walks], smooth)


def reals(ctx, b, name, I, O, H, L, walks, limit):
    """the same histories with learned values, inputs, states and incoming
    gradients that are no integers"""
    rnd = random.Random(ctx.seed + 5)
    used = {t for w in walks for o, s in w for t in s["T"]} | {L["steps"]}
    T = Terms(ctx, I, O, H, sorted(used))
    T.check(rnd)
    rnd.shuffle(walks)
    n = count(I, O, H)
    cases, wants = [], []
    D = lambda v: [float(x) for x in v]
    for w in walks[:limit]:
        w = w[:25]
        P = [rnd.choice((rnd.uniform(-1, 1), rnd.uniform(-3, 3), .5)) for _ in range(n)]
        c = ["lnew 1 " + net.describe(L, "l"), "lset 1 " + net.vec(P)]
        want = [None, None]
        h, steps, run, gr = {1: [0.0] * H}, {1: L["steps"]}, {1: None}, {1: [Decimal(0)] * n}
        for o, _ in w:
            k, a, y = o["op"], o["c"], None
            noise = lambda v: [x * .75 + rnd.uniform(-.2, .2) if x else 0.0 if rnd.random() < .3 else rnd.uniform(-.5, .5) for x in v]
            made = []

            def f(v):
                made[:] = noise(v)
                return made
            c.append(cmd(o, f))
            if k == "set" and o["ok"]:
                h[a] = list(made) + h[a][len(made):]
                run[a] = None
            elif k == "reset":
                h[a], run[a] = [0.0] * H, None
            elif k == "steps":
                steps[a], run[a] = o["t"], None
            elif k == "clone":
                d = o["d"]
                h[d], steps[d], run[d], gr[d] = list(h[a]), steps[a], None, list(gr[a])
            elif k in ("eval", "train"):
                y, new = T.run(P, h[a], made, steps[a])
                run[a] = (h[a], list(made), steps[a]) if k == "train" else None
                h[a] = new
            elif k == "back":
                y, p = T.back(P, *run[a], made)
                gr[a] = [u + v for u, v in zip(gr[a], p)]
            want.append((o["ok"], None if y is None else D(y)))
            for m in sorted(h):
                c.append("lshow %d" % m)
                want.append(("g", D(gr[m])))
        cases.append(c)
        wants.append(want)
    done = 0
    for c, want, got in zip(cases, wants, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for m, (x, e) in enumerate(zip(got, want)):
            why = None
            if e is None:
                continue
            if e[0] == "g":
                if "g" not in x or not net.vclose(e[1], x["g"], 1e-10):
                    why = "the gradients are %s, should be %s" % (x.get("g", x), e[1])
            elif e[0] != ("ex" not in x and "crash" not in x):
                why = "gives %s" % x
            elif e[1] is not None and not net.vclose(e[1], x["r"], 1e-10):
                why = "gives %s, should be %s" % (x["r"], e[1])
            if why:
                ctx.violation("%s, real numbers: '%s': %s" % (name, core.show(c[m]), why), {"harness": "h_net", "lib": True, "commands": c[:m + 1]})
                break
    ctx.traces(done)
    with core.LOCK:
        ctx.cov["histories over the reals"] = ctx.cov.get("histories over the reals", 0) + done


def network(ctx, b, I, O, H, steps, count_):
    """a recurrent layer and a loss: the state goes on from one training step to
    the next, through training and prediction; a copy of the model keeps its own"""
    T = Terms(ctx, I, O, H, [steps])
    rnd = random.Random(ctx.seed + 7 + 10 * I + 100 * O + 1000 * H)
    n, m = count(I, O, H), steps * O
    rate = 0.125
    cases, wants = [], []
    for _ in range(count_):
        P = [rnd.uniform(-1, 1) for _ in range(n)]
        L = [{"kind": "rnn", "in": I, "out": O, "hid": H, "steps": steps}, MSE(m, 0, 2)]
        c = net.build_model(1, L, [("edge", 1, 2)], "m", [P, []]) + ["onew 1 gd %r" % rate]
        want = [None] * len(c)
        h, g, p = {1: [Decimal(0)] * H}, {1: [Decimal(0)] * n}, [Decimal(v) for v in P]
        for _ in range(rnd.randrange(3, 8)):
            k = rnd.choice(("step", "step", "predict", "train", "copy"))
            a = rnd.choice(sorted(h))
            x = [rnd.uniform(-1, 1) for _ in range(steps * I)]
            if k == "step":
                t = [rnd.uniform(-2, 2) for _ in range(m)]
                y, new = T.run(p, h[a], x, steps)
                d = [2 * (u - Decimal(v)) / 2 for u, v in zip(y, t)]
                _, dp = T.back(p, h[a], x, steps, d)
                g[a] = [u + v for u, v in zip(g[a], dp)]
                h[a] = new
                c.append("mstep %d %s %s" % (a, net.vec(x), net.vec(t)))
                want.append((None, g, p, y, a))
            elif k == "predict":
                y, new = T.run(p, h[a], x, steps)
                h[a] = new
                c.append("mpredict %d %s" % (a, net.vec(x)))
                want.append((y, g, p, y, a))
            elif k == "train":
                if a != 1:
                    continue
                p = [u - Decimal(rate) * v for u, v in zip(p, g[a])]
                g = dict(g)
                g[a] = [Decimal(0)] * n
                c.append("mtrain %d 1" % a)
                want.append((None, g, p, None, a))
            elif len(h) == 1:
                h[2], g = list(h[1]), dict(g)
                g[2] = list(g[1])
                c.append("mcopy 1 2")
                want.append((None, g, p, None, 1))
            g = dict(g)
        cases.append(c)
        wants.append(want)
    done = 0
    F = lambda v: [float(x) for x in v]
    for c, want, got in zip(cases, wants, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for j, (x, e) in enumerate(zip(got, want)):
            if e is None:
                continue
            why = None
            r, g, p, y, a = e
            if "m" not in x:
                why = "gives %s" % x
            elif r is not None and not net.vclose(F(r), x["r"], 1e-10):
                why = "predicts %s, should be %s" % (x["r"], F(r))
            else:
                for q, mod in zip(sorted(g), x["m"]):
                    l = mod["layers"][0]
                    if not net.vclose(F(p), l["p"], 1e-10):
                        why = "model %d has learned values %s, should be %s" % (q, l["p"], F(p))
                    elif not net.vclose(F(g[q]), l["g"], 1e-10):
                        why = "model %d has gradients %s, should be %s" % (q, l["g"], F(g[q]))
                    elif q == a and y is not None and not net.vclose(F(y), l["y"], 1e-10):
                        why = "model %d has outputs %s, should be %s" % (q, l["y"], F(y))
            if why:
                ctx.violation("network of a recurrent layer: '%s': %s" % (core.show(c[j]), why), {"harness": "h_net", "lib": True, "commands": c[:j + 1]})
                break
    ctx.traces(done)


def run(ctx):
    b = core.build("h_net", lib=True)
    X = ctx.thorough
    PM, ALL = (-1, 1), ("set", "reset", "steps", "eval", "train", "back", "clone")
    S = lambda *v: [list(x) for x in v]
    items = []

    def add(name, *a, **k):
        items.append((ctx, b, name) + a + (k,))
    states1 = S([], [1], [-1], [1, 0])
    states2 = S([], [1], [1, -1], [0, 1], [1, 0, 1])
    quiet = ("set", "reset", "steps", "eval", "train", "clone")
    for j in range(1, 4 if X else 2):
        add("sizes 1,1,1 any history, %d" % j, 1, 1, 1, j, (-1, 0, 1), (0, 1, 2, 3), states1, 2, quiet, 0, 1)
        add("sizes 1,2,2 any history, %d" % j, 1, 2, 2, j, PM, (1, 2), states2, 2 if X else 1, quiet, 0, 2)
        add("sizes 2,1,2 any history, %d" % j, 2, 1, 2, j, PM, (1, 2), states2, 1, quiet, 0, 0)
        add("sizes 1,1,1 with gradients, %d" % j, 1, 1, 1, j, (-1, 0, 1), (0, 1, 3), states1, 1, ALL, 4 if X else 3, 2, smooth=150)
        add("sizes 2,1,1 with gradients, %d" % j, 2, 1, 1, j, PM, (1, 2), states1, 2, ALL, 3, 1, smooth=100)
        add("sizes 1,2,2 with gradients, %d" % j, 1, 2, 2, j, PM, (1, 2, 3), S([1, -1]), 1, ALL, 4 if X else 3, 2, smooth=150)
        add("sizes 2,2,3 with gradients, %d" % j, 2, 2, 3, j, PM, (1, 2), S([1, -1, 0]), 1, ("set", "train", "back", "steps"), 3, 1, smooth=60)
    add("sizes 1,1,3 any history", 1, 1, 3, 1, PM, (1, 3), S([1, 0, -1], [0, 1]), 1, quiet, 0, 1)
    ctx.each(lambda c, h, *a: explore(c, h, *a[:-1], **a[-1]), items)
    ctx.each(network, [(ctx, b, I, O, H, t, 120 if X else 30) for I, O, H, t in ((1, 1, 1, 1), (1, 1, 2, 2), (2, 1, 1, 3), (1, 2, 2, 2))])
