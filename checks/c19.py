"""C19: every transition of LossRun.tla for both losses replayed, the score
compared after every call."""
import random
from decimal import Decimal
from vlib import core, net, tour
from vlib.layers import term, Decimal as D


def commands(o, preds, targets):
    k = o["op"]
    q = lambda v: net.vec([a / 8 for a in v])
    if k == "target":
        return "ltarget 1 " + q(targets[o["i"] - 1])
    if k in ("train", "eval"):
        return ("ltrain 1 " if k == "train" else "lfwd 1 ") + q(preds[o["i"] - 1])
    if k == "back":
        return "lbwd 1 0"
    return "lreset 1"


def explore(ctx, b, name, kind, n, batch, tol, preds, targets, maxcount, how):
    r = core.tlc("LossRun", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nINVARIANT RightIsSome\nPROPERTIES CountsOnce RefusedIsNotCounted\nACTION_CONSTRAINT Emit\n", coverage=True,
                 defs={"Kind": net.tla(kind), "In": n, "Batch": batch, "Tol": tol, "Preds": net.tla(preds), "Targets": net.tla(targets), "MaxCount": maxcount})
    ctx.count_tlc(r, name)
    formulas = [p for p in r.prints if "loss" in p][0]
    prints = [p for p in r.prints if "o" in p]
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in prints)
    val = lambda v: [Decimal(a) / 8 for a in v]
    loss = {(i + 1, j + 1): term(formulas["loss"], val(p), val(t)) for i, t in enumerate(targets) for j, p in enumerate(preds)}
    # the gradient is the derivative of the sum of the losses over the batch size
    h = Decimal(10) ** -20
    for p in preds:
        for t in targets:
            x = val(p)
            for i in range(n):
                if x[i] == 0:
                    continue
                up, dn = list(x), list(x)
                up[i] += h
                dn[i] -= h
                f = (term(formulas["loss"], up, val(t)) - term(formulas["loss"], dn, val(t))) / (2 * h) / max(batch, 1) * (n if kind == "mse" else 1)
                if abs(f - term(formulas["gradient"][i], x, val(t))) > Decimal(10) ** -12:
                    raise core.CheckError("LossRun: gradient at %s %s" % (p, t))
    L = {"kind": kind, "in": n, "batch": batch, "tol": tol / 4}
    d = net.describe(L, "l")
    pre = ["lnew 1 " + d] if how == "new" else ["llate 1 " + d] if how == "late" else ["lnew 2 " + d, "lclone 2 1"]
    rnd = random.Random(ctx.seed)
    cases, walks = [], []
    for s0, steps in g.walks(rnd, 40, anywhere=False, start=prints[0]["a"]):
        c = list(pre)
        for s, o, t in steps:
            c += [commands(o, preds, targets), "lshow 1"]
        cases.append(c)
        walks.append(steps)
    done = 0
    for c, steps, got in zip(cases, walks, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for i, (s, o, t) in enumerate(steps):
            k = len(pre) + 2 * i
            x, sh = got[k], got[k + 1]
            e = g.states[t]
            why = None
            if o["op"] in ("train", "eval"):
                if o["ok"] != ("r" in x):
                    why = "should be refused but is not" if not o["ok"] else "got %s" % x
                elif x.get("input_changed"):
                    why = "an input was modified"
            elif o["op"] == "back":
                want = [float(term(f, val(preds[o["i"] - 1]), val(targets[o["t"] - 1]))) if preds[o["i"] - 1][q] else None for q, f in enumerate(formulas["gradient"])] \
                    if all(preds[o["i"] - 1]) or kind == "mse" else None
                if kind == "mse":
                    want = [float(term(f, val(preds[o["i"] - 1]), val(targets[o["t"] - 1]))) for f in formulas["gradient"]]
                if "r" not in x:
                    why = "got %s" % x
                elif want is not None and not net.vclose(want, x["r"]):
                    why = "gradient %s, should be %s" % (x["r"], want)
                elif not x["same"]:
                    why = "what is returned is not the last input gradient"
            elif "ex" in x or "crash" in x:
                why = "got %s" % x
            if not why:
                if "acc" not in sh:
                    why = "got %s" % sh
                else:
                    n_ = e["count"]
                    acc = e["right"] / n_ if n_ else float("nan")
                    al = float(sum((loss[p["t"], p["x"]] * p["n"] for p in e["pairs"]), Decimal(0)) / n_) if n_ else float("nan")
                    if not net.close(acc, sh["acc"]):
                        why = "accuracy %s, should be %s" % (sh["acc"], acc)
                    elif not net.close(al, sh["loss"]):
                        why = "average loss %s, should be %s" % (sh["loss"], al)
            if why:
                ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in c[:k + 2] if z != "lshow 1"), why), {"harness": "h_net", "lib": True, "commands": c[:k + 2]})
                break
    ctx.traces(done)
    if cases:
        ctx.sample({"loss": name, "calls": [core.show(z) for z in cases[0][:10]]})
    ctx.log(name, r.distinct, "states", g.n, "transitions", done, "walks")


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    items = []
    add = lambda *a: items.append((ctx, b) + a)
    for i, (n, batch) in enumerate([(1, 1), (2, 1), (3, 2), (2, 0), (3, 4)] + ([(4, 3), (1, 8), (5, 16)] if T else [])):
        how = ("new", "late", "clone")[i % 3]
        mp = [[(a * 5 + k * 3) % 17 - 8 for k in range(n)] for a in range(3)]
        mt = [mp[0], [v + (2 if k == 0 else 0) for k, v in enumerate(mp[1])], [0] * n]
        for tol in (0, 1, 40):
            add("mse of %d, batch %d, tolerance %g" % (n, batch, tol / 4), "mse", n, batch, tol, mp, mt, 5 if T else 3, how)
    for i, (n, batch) in enumerate([(2, 1), (3, 2), (4, 1), (3, 0)] + ([(5, 3), (1, 1), (6, 32)] if T else [])):
        how = ("new", "late", "clone")[(i + 1) % 3]
        cp = [[(3 * a + 2 * k) % (n + 3) + 1 for k in range(n)] for a in range(2)]
        cp = [v if len(set(v)) == n else list(range(a + 1, a + 1 + n)) for a, v in enumerate(cp)]
        cp.append([8 if k == n - 1 else 0 if k == 0 else k for k in range(n)])      # certain, and an impossible class
        ct = [[8 if k == 0 else 0 for k in range(n)], [8 if k == n - 1 else 0 for k in range(n)], [0] * n, [16 if k == n // 2 else 0 for k in range(n)]]
        add("cce of %d, batch %d" % (n, batch), "cce", n, batch, 0, cp, ct, 4 if T else 3, how)
    ctx.each(explore, items)
