"""C16: histories of saving and loading (LayerStore.tla, NetModel.tla) replayed."""
import random
from vlib import core, net, tour
from vlib.models import *

hx = core.hx
# texts that are no dump, or one of another layer
BAD = ["", "[]", "{}", '{"type":"Nothing","name":"q","input_shape":[[1,1,1]],"output_shape":[[1,1,1]]}', '"Dense"', "7",
       '{"name":"q","input_shape":[[1,1,1]],"output_shape":[[1,1,1]]}']
VALUES = [0.1, -0.1, 1 / 3, -2.5, 1e-17, 123456.789, -1e10, 5e-324, 1.7976931348623157e308, 2 ** -0.5, 3.0, -7.0, 1e22, 0.30000000000000004, 1e-5, -4.9e-7]


def kinds(T):
    AVG = lambda *a: dict(MAX(*a), kind="avg")
    act = lambda k, n: {"kind": k, "in": n}
    yield "dense", [D(2, 3), D(3, 1), D(2, 3)]
    yield "conv", [CONV(3, 3, 1, 2, 2, 2, 1, 1), dict(CONV(2, 4, 2, 1, 2, 1), sw=2), dict(CONV(3, 3, 1, 2, 2, 2, 1, 1), ph=0)]
    yield "max", [MAX(4, 4, 1, 2, 2, 2), dict(MAX(3, 4, 2, 1, 3, 1), sw=2)]
    yield "avg", [AVG(4, 4, 1, 2, 2, 2), dict(AVG(3, 4, 2, 1, 3, 1), sw=2)]
    yield "rnn", [{"kind": "rnn", "in": 2, "out": 1, "hid": 3, "steps": 2}, {"kind": "rnn", "in": 1, "out": 2, "hid": 2, "steps": 3}]
    yield "dropout", [{"kind": "dropout", "in": 3, "p": 0.25}, {"kind": "dropout", "in": 4, "p": 0.0}, {"kind": "dropout", "in": 3, "p": 1.0}]
    yield "elu", [{"kind": "elu", "in": 3, "alpha": 1.0}, {"kind": "elu", "in": 3, "alpha": 0.3}]
    for k in ("relu", "linear", "sigmoid", "tanh", "softmax"):
        yield k, [act(k, 3), act(k, 2)]
    yield "mse", [MSE(3, 0.5), MSE(2, 2.0)]
    yield "cce", [{"kind": "cce", "in": 3, "batch": 1}, {"kind": "cce", "in": 2, "batch": 1}]


def nparams(L):
    if L["kind"] == "rnn":
        return (L["in"] + L["hid"] + 1) * L["hid"] + (L["hid"] + 1) * L["out"]
    return count(L)


def insize(L):
    if "h" in L:
        return L["h"] * L["w"] * L["c"]
    return L["in"] * L.get("steps", 1)


def store(ctx, b, name, slots, cross, maxops, bad):
    """slots: list of (kind, layer)"""
    rnd = random.Random(ctx.seed * 77 + len(slots))
    r = core.tlc("LayerStore", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nINVARIANT KindsKept\nPROPERTIES OnlyTarget RefusedIsNoChange\nACTION_CONSTRAINT Emit\n", coverage=True,
                 defs={"Kind": net.tla([k for k, _ in slots]), "Bad": bad, "Cross": net.tla(cross), "MaxOps": maxops})
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    start = r.prints[0]["a"]
    pre, probe = [], []
    for i, (k, L) in enumerate(slots):
        pre.append("lnew %d %s" % (i, net.describe(L, "slot_%d" % i)))
        vals = [rnd.choice(VALUES) if rnd.random() < .7 else rnd.uniform(-3, 3) for _ in range(nparams(L))]
        if vals:
            pre.append("lset %d %s" % (i, net.vec(vals)))
    first = len(pre)
    for i, (k, L) in enumerate(slots):
        pre.append("lshow %d" % i)
    for i, (k, L) in enumerate(slots):
        pre.append("ldump %d" % i)
    xs = [[rnd.uniform(-2, 2) for _ in range(insize(L))] for _, L in slots]
    for i, (k, L) in enumerate(slots):
        if k not in ("mse", "cce"):
            if k == "rnn":
                probe.append(None)
                continue
            pre.append("lfwd %d %s" % (i, net.vec(xs[i])))
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 30, anywhere=False, start=start):
        c = list(pre)
        for _, o, _ in steps:
            c.append("lload %d %d" % (o["from"] - 1, o["to"] - 1) if o["op"] == "load" else "lbad %d %s" % (o["to"] - 1, hx(BAD[o["from"] - 1])))
        end = g.states[steps[-1][2]][0]
        at = len(c)
        for i, (k, L) in enumerate(slots):
            c.append("ldump %d" % i)
        for i, (k, L) in enumerate(slots):
            o = slots[end[i] - 1]
            if k not in ("mse", "cce", "rnn"):
                c.append("lfwd %d %s" % (i, net.vec(xs[end[i] - 1])))
            else:
                c.append("lshow %d" % i)
        cases.append(c)
        walks.append((at, steps, end))
    done = 0
    for c, (at, steps, end), got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        orig = got[first:first + len(slots)]
        dumps = got[first + len(slots):first + 2 * len(slots)]
        fwd = {}
        for i, x in zip([i for i, (k, L) in enumerate(slots) if k not in ("mse", "cce", "rnn")], got[first + 2 * len(slots):len(pre)]):
            fwd[i] = x
        why, upto = None, len(c)
        keys = ("name", "type", "in", "out", "insize", "p")
        for j, ((s, o, t), x) in enumerate(zip(steps, got[len(pre):at])):
            to = o["to"] - 1
            e = orig[g.states[t][0][to] - 1]
            if "to" not in x:
                why = "got %s" % x
            elif x["refused"] != (0 if o["ok"] else 1):
                why = "was %s" % ("refused" if x["refused"] else "not refused")
            else:
                bad_ = [k for k in keys if e.get(k) != x["to"].get(k)]
                if bad_:
                    why = "%s is %s, should be %s" % (bad_[0], x["to"].get(bad_[0]), e.get(bad_[0]))
            if why:
                upto = len(pre) + j + 1
                break
        if not why:
            for i in range(len(slots)):
                if got[at + i] != dumps[end[i] - 1]:
                    why = "slot %d is saved as %s, should be %s" % (i, got[at + i], dumps[end[i] - 1])
                    break
                x = got[at + len(slots) + i]
                f = fwd.get(end[i] - 1)
                if f is not None and ("r" not in x or x["r"] != f["r"]):
                    why = "slot %d gives %s, the layer it was loaded from gives %s" % (i, x, f["r"])
                    break
        if why:
            ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in c[:upto]), why), {"harness": "h_net", "lib": True, "commands": c[:upto]})
    ctx.traces(done)
    ctx.sample({"slots": name, "walk": [core.show(z) for z in cases[0][-6:]]})
    ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks")


def whole(ctx, b, name, nets, maxops):
    """models: nets is a list of (architecture, layers, edges)"""
    rnd = random.Random(ctx.seed * 5 + len(name))
    r = core.tlc("LayerStore", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nINVARIANT KindsKept\nPROPERTIES OnlyTarget RefusedIsNoChange\nACTION_CONSTRAINT Emit\n", coverage=True,
                 defs={"Kind": net.tla([a for a, _, _ in nets]), "Bad": 0, "Cross": "FALSE", "MaxOps": maxops})
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    start = r.prints[0]["a"]
    pre, spots = [], []
    for m, (a, layers, edges) in enumerate(nets):
        ps = [[rnd.choice(VALUES[:6] + VALUES[9:12]) if rnd.random() < .4 else rnd.uniform(-1, 1) for _ in range(nparams(L))] for L in layers]
        pre += net.build_model(m + 1, layers, edges, "net%d" % m, ps)
    pre.append("obs")
    where = len(pre) - 1
    xs = {}
    for m, (a, layers, edges) in enumerate(nets):
        xs.setdefault(a, [rnd.uniform(-1, 1) for _ in range(insize(layers[0]))])
    def predict(m, k):
        L = nets[m][1]
        return "mpredict %d %s" % (m + 1, net.vec(xs[nets[m][0]]))
    plain = [m for m, (_, layers, _) in enumerate(nets) if not any(L["kind"] == "rnn" for L in layers)]
    for m in plain:
        pre.append(predict(m, m))
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 30, anywhere=False, start=start):
        end = g.states[steps[-1][2]][0]
        c = list(pre) + ["mload %d %d" % (o["to"], o["from"]) for _, o, _ in steps]
        at = len(c)
        c += [predict(m, m) for m in plain]
        cases.append(c)
        walks.append((at, steps, end))
    done = 0
    for c, (at, steps, end), got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        orig, why, upto = got[where], None, len(c)
        keys = ("name", "type", "in", "out", "p")
        for j, ((s, o, t), x) in enumerate(zip(steps, got[len(pre):at])):
            st = g.states[t][0]
            if "m" not in x:
                why = "got %s" % x
            else:
                for m in range(len(nets)):
                    e, f = orig[st[m] - 1], x["m"][m]
                    if e["name"] != f["name"]:
                        why = "model %d is named %s, should be %s" % (m + 1, f["name"], e["name"])
                    for l, (p, q) in enumerate(zip(e["layers"], f["layers"])):
                        for k in keys:
                            if p.get(k) != q.get(k) and not why:
                                why = "model %d layer %d: %s is %s, should be %s" % (m + 1, l, k, q.get(k), p.get(k))
            if why:
                upto = len(pre) + j + 1
                break
        if not why:
            base = {m: got[where + 1 + i] for i, m in enumerate(plain)}
            for i, m in enumerate(plain):
                if got[at + i].get("r") != base[end[m] - 1].get("r"):
                    why = "model %d predicts %s, the model it was loaded from %s" % (m + 1, got[at + i], base[end[m] - 1])
        if why:
            ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in c[:upto]), why[:600]), {"harness": "h_net", "lib": True, "commands": c[:upto]})
    ctx.traces(done)
    ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks")


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    jobs = []
    for k, ls in kinds(T):
        jobs.append((store, (ctx, b, "layers of kind " + k, [(k, L) for L in ls], False, 3 if T or len(ls) < 3 else 2, len(BAD))))
    firsts = [(k, ls[0]) for k, ls in kinds(T)]
    jobs.append((store, (ctx, b, "loading into other kinds", firsts, True, 1, 0)))
    mixed = [s for s in firsts if s[0] in ("dense", "conv", "max", "avg", "relu", "linear")]
    jobs.append((store, (ctx, b, "refused and accepted loads", mixed + [("dense", D(1, 2)), ("max", MAX(3, 3, 1, 2, 2, 1))], True, 2, 1)))
    small = ("small", [D(2, 3), {"kind": "tanh", "in": 3}, D(3, 1), MSE(1, 0.5)], chain(4))
    big = ("conv", [CONV(3, 3, 1, 2, 2, 2), {"kind": "relu", "in": 8}, MAX(2, 2, 2, 2, 1, 1), {"kind": "dropout", "in": 4, "p": 0.5}, D(4, 2),
                    {"kind": "softmax", "in": 2}, {"kind": "cce", "in": 2, "batch": 2}], chain(7))
    fork = ("fork", [D(2, 2), {"kind": "sigmoid", "in": 2}, {"kind": "elu", "in": 2, "alpha": .7}, MSE(2, .1), MSE(2, .2)],
            [("edge", 1, 2), ("edge", 1, 3), ("edge", 2, 4), ("edge", 3, 5)])
    rec = ("rnn", [{"kind": "rnn", "in": 2, "out": 2, "hid": 2, "steps": 2}, {"kind": "linear", "in": 4}, MSE(4)], [("edge", 1, 2), ("edge", 2, 3)])
    n = 4 if T else 3
    jobs += [(whole, (ctx, b, "models of one architecture", [small] * 3, n)),
             (whole, (ctx, b, "convolutional models", [big] * 2, n)),
             (whole, (ctx, b, "forked and small models", [fork, small, fork, small], 3)),
             (whole, (ctx, b, "recurrent models", [rec] * 2, n))]
    one = [D(1, 2), MSE(2)]
    jobs += [(explore, (ctx, b, "loading between trained models", [D(2, 2), R(2), D(2, 1), MSE(1, 4)], chain(4), [[1, 2]], [[1]], ("step", "predict", "train", "load", "copy"), 5 if T else 4, 2, 3)),
             (explore, (ctx, b, "loading, training and resetting", one, chain(2), [[2]], [[0, 1]], ("step", "predict", "train", "load", "reset"), 6 if T else 5, 2, 2))]
    ctx.each(lambda f, a: f(*a), jobs)
