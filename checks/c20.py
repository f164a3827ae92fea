"""C20: every transition of OptRun.tla replayed with real layers."""
import random
from decimal import Decimal
from vlib import core, net, tour
from vlib.layers import term
from vlib.models import D, CONV, R

ETAS = {"gd": [[1, 2], [1, 4]], "adam": [[1, 10], [1, 4]]}


def hyper(rule, k):
    return [{"eta": ETAS[rule][i], "b1": [[9, 10], [1, 2]][i], "b2": [[99, 100], [3, 4]][i], "eps": [[1, 100000000], [1, 8]][i]} for i in range(k)]


def build(layers, store, values, hyp, rule):
    """commands that make the layers and optimizers; layers with the same
    store are clones of the first of them"""
    c, first = [], {}
    for i, (L, s) in enumerate(zip(layers, store)):
        if s in first:
            c.append("lclone %d %d" % (first[s], i + 1))
        else:
            first[s] = i + 1
            c.append("lnew %d %s" % (i + 1, net.describe(L, "l%d" % i)))
            if values[s - 1]:
                c.append("lset %d %s" % (i + 1, net.vec(values[s - 1])))
    f = lambda r: repr(r[0] / r[1])
    for i, h in enumerate(hyp):
        c.append("onew %d gd %s" % (i + 1, f(h["eta"])) if rule == "gd" else "onew %d adam %s %s %s %s" % (i + 1, f(h["eta"]), f(h["b1"]), f(h["b2"]), f(h["eps"])))
    return c


def cmd(o):
    k = o["op"]
    if k == "acc":
        return "ladd %d %s" % (o["l"], net.vec(o["v"]))
    if k == "reset":
        return "oreset %d" % o["o"]
    return "o%s %d %d %d" % (k, o["o"], o["from"], o["to"])


def explore(ctx, b, name, rule, layers, store, counts, ops, maxops, nopt):
    hyp = hyper(rule, nopt)
    r = core.tlc("OptRun", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nPROPERTIES Cleared OthersKept OneStore RefusedIsNoChange\nACTION_CONSTRAINT Emit\n", coverage=True, heap="8g",
                 defs={"Rule": net.tla(rule), "Hyper": net.tla(hyp), "Store": net.tla(store), "Count": net.tla(counts), "Grads": net.tla([3, -2, 0, 5, 1, -4, 7]), "Ops": net.tla(tuple(ops)), "MaxOps": maxops})
    ctx.count_tlc(r, name)
    delta = [p for p in r.prints if "delta" in p][0]["delta"]
    prints = [p for p in r.prints if "o" in p]
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in prints)
    values = [[((i * 3 + s) % 7 - 3) / 2 for i in range(c)] for s, c in enumerate(counts)]
    memo = {}

    def step(o, gs):
        key = (o, tuple(gs))
        if key not in memo:
            memo[key] = term(delta[o - 1][len(gs) - 1], None, [Decimal(v) for v in gs])
        return memo[key]

    def params(st, s):
        out = []
        for i in range(counts[s - 1]):
            v = Decimal(values[s - 1][i])
            for u in st["upd"][s - 1]:
                v -= step(u["o"], [w[i] for w in u["run"]])
            out.append(float(v))
        return out

    pre = build(layers, store, values, hyp, rule)
    show = ["lshow %d" % (i + 1) for i in range(len(layers))]
    rnd = random.Random(ctx.seed)
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 40, anywhere=False, start=prints[0]["a"]):
        c = list(pre)
        for s, o, t in steps:
            c += [cmd(o)] + show
        cases.append(c)
        walks.append(steps)
    done, w = 0, len(show) + 1
    for c, steps, got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for i, (s, o, t) in enumerate(steps):
            k = len(pre) + w * i
            x, why = got[k], None
            e = g.states[t]
            if o["op"] in ("train", "self", "check"):
                if "refused" not in x:
                    why = "got %s" % x
                elif bool(x["refused"]) == o["ok"]:
                    why = "was refused" if o["ok"] else "was not refused"
            elif "ex" in x or "crash" in x:
                why = "got %s" % x
            for l in range(len(layers)):
                if why:
                    break
                y = got[k + 1 + l]
                if "p" not in y:
                    why = "got %s" % y
                elif not net.vclose(e["g"][l], y["g"]):
                    why = "gradients of layer %d are %s, should be %s" % (l + 1, y["g"], e["g"][l])
                elif not net.vclose(params(e, store[l]), y["p"]):
                    why = "learned values of layer %d are %s, should be %s" % (l + 1, y["p"], params(e, store[l]))
            if why:
                short = [z for z in c[:k + 1] if not z.startswith("lshow")]
                ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in short), why), {"harness": "h_net", "lib": True, "commands": c[:k + w]})
                break
    ctx.traces(done)
    if cases:
        ctx.sample({"optimizer": name, "calls": [core.show(z) for z in cases[0][:10] if not z.startswith("lshow")]})
    ctx.log(name, r.distinct, "states,", g.n, "transitions,", done, "walks")


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    conv = CONV(1, 2, 1, 1, 2, 1)
    rnn = {"kind": "rnn", "in": 1, "out": 1, "hid": 1, "steps": 1}
    every = ("train", "self", "check", "reset")
    items = []
    for rule in ("gd", "adam"):
        add = lambda name, *a: items.append((ctx, b, "%s: %s" % (rule, name), rule) + a)
        add("a layer, its clone and a layer of another class", [D(2, 1), D(2, 1), conv], [1, 1, 2], [3, 3], every, 4 if T else 3, 1)
        add("one layer", [D(2, 2)], [1], [6], ("self", "reset"), 7 if T else 6, 1)
        add("two optimizers", [D(1, 1), D(1, 1)], [1, 2], [2, 2], ("train", "reset"), 5 if T else 4, 2)
        add("other numbers of learned values", [D(1, 2), D(2, 1), R(2), conv], [1, 2, 3, 4], [4, 3, 0, 3], every, 3, 1)
        add("a recurrent layer", [rnn, D(4, 1)], [1, 2], [5, 5], ("train", "reset"), 4, 1)
    ctx.each(explore, items)
