"""Exploring NetModel.tla and replaying every transition (C14, C15, C16)."""
import random
from vlib import core, net, tour

D = lambda i, o: {"kind": "dense", "in": i, "out": o}
R = lambda n: {"kind": "relu", "in": n}
LI = lambda n: {"kind": "linear", "in": n}
DROP = lambda n, rate: {"kind": "drop", "in": n, "rate": rate}
MSE = lambda n, tol=0, batch=1: {"kind": "mse", "in": n, "tol": tol, "batch": batch}
CONV = lambda h, w, c, kh, kw, f, s=1, p=0: {"kind": "conv", "h": h, "w": w, "c": c, "kh": kh, "kw": kw, "sh": s, "sw": s, "ph": p, "pw": p, "f": f}
MAX = lambda h, w, c, kh, kw, s: {"kind": "max", "h": h, "w": w, "c": c, "kh": kh, "kw": kw, "sh": s, "sw": s}


def count(L):
    k = L["kind"]
    return L["in"] * L["out"] + L["out"] if k == "dense" else L["kh"] * L["kw"] * L["c"] * L["f"] + L["f"] if k == "conv" else 0


def params(layers, j):
    """small different integers"""
    out, k = [], j
    for L in layers:
        v = []
        for _ in range(count(L)):
            k = (k * 5 + 3) % 17
            v.append((k % 5 - 2 or 1) // 2 if k % 3 else k % 2)
        out.append(v)
    return out


def chain(n):
    return [("edge", i, i + 1) for i in range(1, n)]


def cmd(o):
    m, x = o["m"], o["x"]
    k = o["op"]
    if k == "step":
        return "mstep %d %s %s" % (m, net.vec(x), net.vec(o["t"]))
    if k == "predict":
        return "mpredict %d %s" % (m, net.vec(x))
    if k == "train":
        return "mtrain %d 1" % m if x[0] == m else "mtrainfrom %d %d 1" % (m, x[0])
    if k == "reset":
        return "mreset %d" % m
    if k in ("assign", "swap", "load"):
        return "m%s %d %d" % (k, m, x[0])
    raise KeyError(k)


def explore(ctx, b, name, layers, edges, xs, ts, ops, maxops, models=1, maxmodels=1, p0=None, extra=None, limit=100):
    """edges: (how, from, to); returns nothing, records violations"""
    rnd = random.Random(ctx.seed)
    p0 = p0 or [params(layers, j + 1) for j in range(models)]
    fwd = [[f, t] for how, f, t in edges if how in ("edge", "front")]
    bwd = [[t, f] for how, f, t in edges if how in ("edge", "back")]
    r = core.tlc("NetModel", "SPECIFICATION Spec\nVIEW View\nINVARIANT Slope\nPROPERTIES Frame Pure Clean\nACTION_CONSTRAINT Emit\n", coverage=True, heap="8g",
                 defs={"Net": net.tla(layers), "Fwd": net.tla(tuple(fwd)), "Bwd": net.tla(tuple(bwd)), "P0": net.tla(p0),
                       "Xs": net.tla(tuple(xs)), "Ts": net.tla(tuple(ts)), "Ops": net.tla(tuple(ops)), "MaxModels": maxmodels, "MaxOps": maxops, "Limit": limit})
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    start = r.prints[0]["a"]
    del r.prints
    pre = ["onew 1 gd 1"]
    for j in range(len(p0)):
        pre += net.build_model(j + 1, layers, edges, "m%d" % (j + 1), p0[j])
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 40, anywhere=False, start=start):
        c = list(pre)
        for s, o, t in steps:
            if o["op"] == "copy":
                c.append("mcopy %d %d" % (o["m"], len(g.states[s]["models"]) + 1))
            else:
                c.append(cmd(o))
        cases.append(c)
        walks.append(steps)
    done = 0
    for c, steps, got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for i, ((s, o, t), x) in enumerate(zip(steps, got[len(pre):])):
            why = None
            if "m" not in x:
                why = "got %s" % x
            elif x.get("input_changed"):
                why = "an input was modified"
            elif not net.vclose(o["r"], x["r"]):
                why = "returned %s, should be %s" % (x["r"], o["r"])
            else:
                why = net.differs_models(g.states[t], x["m"], layers)
                if not why and extra:
                    why = extra(g.states[s], o, g.states[t], x)
            if why:
                upto = c[:len(pre) + i + 1]
                ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in upto), why),
                              {"harness": "h_net", "lib": True, "commands": upto})
                break
    ctx.traces(done)
    ctx.sample({"network": name, "walk": [core.show(z) for z in cases[0][:len(pre) + 4]]})
    ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks")
