"""Exploring LayerRun.tla and replaying every behaviour (C17, C18)."""
import math, random
from decimal import Decimal, DefaultContext, getcontext
from vlib import core, net

DefaultContext.prec = getcontext().prec = 60     # also in other threads
TERMED = ("sigmoid", "tanh", "softmax", "elu")


# ------------------------------------------------------------------- terms
def term(t, x, d):
    k = t[0]
    if k == "x":
        return x[t[1] - 1]
    if k == "d":
        return d[t[1] - 1]
    if k == "n":
        return Decimal(t[1]) / Decimal(t[2])
    if k == "exp":
        return term(t[1], x, d).exp()
    if k == "tanh":
        e = (2 * term(t[1], x, d)).exp()
        return (e - 1) / (e + 1)
    if k == "eps":
        return Decimal(2) ** -52
    if k == "sqrt":
        return term(t[1], x, d).sqrt()
    if k == "log":
        return term(t[1], x, d).ln()
    if k == "max":
        return max(term(t[1], x, d), term(t[2], x, d))
    if k == "pos":
        return term(t[2] if term(t[1], x, d) > 0 else t[3], x, d)
    a = [term(u, x, d) for u in t[1:]]
    return sum(a, Decimal(0)) if k == "+" else a[0] * a[1] if k == "*" else a[0] / a[1] if k == "/" else a[0] - a[1]


def self_check(f, g, n, x):
    """the derivative terms against symmetric difference quotients"""
    x = [Decimal(v) for v in x]
    if any(v == 0 for v in x):
        return
    h = Decimal(10) ** -20
    for o in range(n):
        d = [Decimal(int(i == o)) for i in range(n)]
        for a in range(n):
            up, dn = list(x), list(x)
            up[a] += h
            dn[a] -= h
            q = (term(f[o], up, None) - term(f[o], dn, None)) / (2 * h)
            if abs(q - term(g[a], x, d)) > Decimal(10) ** -15 * (1 + abs(q)):
                raise core.CheckError("LayerTerms: derivative of output %d by input %d at %s is %s, not %s: %s" % (o, a, x, q, term(g[a], x, d), g[a]))


def numbers(kind, n, j, rnd):
    """inputs for layers whose functions are over the reals"""
    if j == 1:
        return [((i * 7 + 3) % 11 - 5) / 4 for i in range(n)]
    if j == 2:
        return [rnd.choice((-800.0, -40.0, -1.0, -2.0 ** -40, 0.0, 1e-9, 0.5, 1.0, 20.0, 800.0)) for _ in range(n)]
    return [rnd.uniform(-6, 6) for _ in range(n)]


# --------------------------------------------------------------- expressions
def box(kind, hs, ws, cs, ks, ss, ps=(0,), fs=(1,), cond="TRUE"):
    """a set of windowed layers, as a TLA+ expression"""
    s = lambda v: net.tla(tuple(v))
    conv = kind == "conv"
    rec = "[kind |-> \"%s\", h |-> h, w |-> w, c |-> c, kh |-> kh, kw |-> kw, sh |-> sh, sw |-> sw%s]" % (kind, ", ph |-> ph, pw |-> pw, f |-> f" if conv else "")
    dims = "h \\in %s, w \\in %s, c \\in %s, kh \\in %s, kw \\in %s, sh \\in %s, sw \\in %s" % (s(hs), s(ws), s(cs), s(ks), s(ks), s(ss), s(ss))
    if conv:
        dims += ", ph \\in %s, pw \\in %s, f \\in %s" % (s(ps), s(ps), s(fs))
    small = "{%s : %s}" % (rec, dims)
    return "{M \\in %s : (%s)}" % (small, cond)


def flat(kind, ns, **more):
    return "{[kind |-> \"%s\", in |-> i0%s] : i0 \\in %s}" % (kind, "".join(", %s |-> %s" % (k, net.tla(v)) for k, v in more.items()), net.tla(tuple(ns)))


def dense(ns, ms):
    return "{[kind |-> \"dense\", in |-> i0, out |-> o0] : i0 \\in %s, o0 \\in %s}" % (net.tla(tuple(ns)), net.tla(tuple(ms)))


def shapes(T, seed):
    """name -> set of layers"""
    yield "dense", dense(range(1, 9 if T else 7), range(1, 9 if T else 7))
    n = range(1, 10 if T else 7)
    yield "activations", " \\cup ".join([flat("relu", n), flat("linear", n), flat("drop", range(1, 4), rate=0), flat("drop", range(1, 4), rate=1)])
    yield "real activations", " \\cup ".join([flat(k, range(1, 6 if T else 5)) for k in ("sigmoid", "tanh", "softmax")] + [flat("elu", range(1, 5 if T else 4), al=a) for a in (0, 1, 2, 4, 6)])
    h = "(M.h * 3 + M.w * 5 + M.c * 7 + M.kh * 11 + M.kw * 13 + M.sh * 17 + M.sw * 19%s + %d)"
    for k in ("max", "avg"):
        big, step = (range(1, 7), 5) if T else (range(1, 6), 29)
        yield k, box(k, big, big, (1, 2, 3), (1, 2, 3, 4) if T else (1, 2, 3), (1, 2, 3), cond="M.kh <= M.h /\\ M.kw <= M.w /\\ ((M.h <= 3 /\\ M.w <= 3 /\\ M.c <= 2 /\\ M.sh <= 2 /\\ M.sw <= 2) \\/ %s %% %d = 0)" % (h % ("", seed), step))
    big, step = (range(1, 6), 37) if T else (range(1, 5), 97)
    fit = "M.kh <= M.h + 2 * M.ph /\\ M.kw <= M.w + 2 * M.pw"
    yield "conv", box("conv", big, big, (1, 2), (1, 2, 3), (1, 2, 3), (0, 1, 2), (1, 2), cond="%s /\\ %s %% %d = 0" % (fit, h % (" + M.ph * 23 + M.pw * 29 + M.f * 31", seed), step))
    yield "conv small", box("conv", (1, 2, 3), (1, 2, 3), (1, 2), (1, 2), (1, 2), (0, 1), (1, 2), cond="%s /\\ %s %% %d = 0" % (fit, h % (" + M.ph * 23 + M.pw * 29 + M.f * 31", seed), 1 if T else 7))


def records(kind, fields, rows):
    return "{%s}" % ", ".join("[kind |-> \"%s\", %s]" % (kind, ", ".join("%s |-> %d" % fv for fv in zip(fields.split(), r))) for r in rows)


def wide(T):
    """name -> layers of sizes far beyond those that are taken one by one: around powers of two, and past them"""
    yield "wide dense", records("dense", "in out", [(16, 3), (17, 5), (33, 2), (2, 17), (3, 33), (65, 4), (4, 65), (129, 2), (1, 100), (300, 1), (40, 40)] + ([(1000, 2), (2, 600), (128, 64)] if T else []))
    n = (15, 16, 17, 32, 33, 64, 65, 100, 129, 257, 1000)
    yield "wide activations", " \\cup ".join([flat("relu", n), flat("linear", n), flat("drop", n, rate=0), flat("drop", n, rate=1)])
    yield "wide real activations", " \\cup ".join([flat(k, (8, 9, 17, 33, 65, 130)) for k in ("sigmoid", "tanh")] + [flat("elu", (8, 9, 17, 33, 65, 130), al=2), flat("softmax", (8, 9, 17, 20) if T else (8, 9, 17))])
    pool = [(8, 9, 1, 3, 3, 2, 2), (9, 8, 5, 2, 4, 1, 3), (7, 17, 3, 3, 2, 2, 1), (33, 2, 2, 5, 2, 4, 1), (6, 6, 8, 6, 6, 1, 1), (16, 16, 3, 2, 2, 2, 2), (5, 5, 17, 2, 2, 3, 3), (1, 129, 2, 1, 7, 1, 5), (20, 20, 1, 9, 9, 5, 7)]
    pool += [(32, 32, 2, 4, 4, 4, 4), (12, 13, 9, 5, 3, 2, 5), (65, 3, 5, 2, 3, 2, 1)] if T else []
    for k in ("max", "avg"):
        yield "wide " + k, records(k, "h w c kh kw sh sw", pool)
    conv = [(8, 9, 1, 3, 3, 2, 2, 1, 1, 1), (7, 6, 5, 2, 4, 1, 3, 0, 2, 3), (9, 5, 3, 3, 2, 2, 1, 1, 0, 5), (17, 2, 2, 5, 2, 4, 1, 2, 1, 2), (5, 5, 4, 5, 5, 1, 1, 2, 2, 4), (3, 3, 9, 2, 2, 1, 1, 0, 0, 2), (4, 4, 1, 2, 2, 1, 1, 0, 0, 17), (1, 65, 2, 1, 4, 1, 3, 0, 3, 2), (6, 6, 2, 3, 3, 4, 5, 3, 4, 2)]
    conv += [(12, 12, 3, 3, 3, 1, 1, 1, 1, 4), (16, 16, 1, 5, 5, 3, 3, 2, 2, 6), (4, 4, 17, 3, 3, 1, 1, 1, 1, 3)] if T else []
    yield "wide conv", records("conv", "h w c kh kw sh sw ph pw f", conv)


HOWS = ("new", "late", "clone", "load")


def describe(L):
    L = dict(L)
    if L["kind"] == "elu":
        L["alpha"] = L["al"] / 4
    return net.describe(L, "l")


def commands(how, L, p, log, ins):
    d = describe(L)
    if how in ("new", "late"):
        c = ["l%s 1 %s" % (how, d), "lset 1 " + net.vec(p)]
    elif how == "clone":
        c = ["lnew 2 " + d, "lset 2 " + net.vec(p), "lclone 2 1"]
    else:
        c = ["lnew 2 " + d, "lset 2 " + net.vec(p), "lnew 1 " + d, "lload 2 1"]
    c.append("lshow 1")
    for s, v in zip(log, ins):
        c.append("%s 1 %s" % ({"train": "ltrain", "eval": "lfwd", "back": "lbwd"}[s["op"]], net.vec(v)))
    return c


def explore(ctx, b, name, layers, script, hows, laws=True):
    """hows: how many of the ways to make a layer are tried with each behaviour"""
    r = core.tlc("LayerRun", "SPECIFICATION Spec\nINVARIANTS TypeOK NoTie %s Emit\nPROPERTY EvalKeeps\n" % ("Slope ParSlope Linear" if laws else ""), coverage=True, heap="8g",
                 defs={"Layers": layers, "Script": net.tla([tuple([o, j] for o, j in s) for s in script])})
    ctx.count_tlc(r, name)
    rnd = random.Random(ctx.seed)
    prints, r.prints = r.prints, None
    cases, meta, checked = [], [], set()
    for q, e in enumerate(prints):
        L, n = e["L"], len(e["log"][0]["in"])
        for v in range(hows):
            how = HOWS[(q + v) % 4]
            real = L["kind"] in TERMED
            ins, exp, x = [], [], None
            for s in e["log"]:
                if not real:
                    ins.append(s["in"])
                    y = s["r"]
                    if L["kind"] == "avg" and s["op"] != "x":
                        y = [a / (L["kh"] * L["kw"]) for a in y]
                    exp.append(y)
                    continue
                if s["op"] != "back":
                    x = numbers(L["kind"], n, s["j"], rnd)
                    ins.append(x)
                    xd = [Decimal(a) for a in x]
                    exp.append([float(term(t, xd, None)) for t in s["r"]])
                    f = s["r"]
                else:
                    d = [a / 2 for a in s["in"]]
                    ins.append(d)
                    exp.append([float(term(t, xd, [Decimal(a) for a in d])) for t in s["r"]])
                    key = str(sorted(L.items()))
                    if key not in checked:
                        checked.add(key)
                        self_check(f, s["r"], n, numbers(L["kind"], n, 1, rnd))
            cases.append(commands(how, L, e["p"], e["log"], ins))
            meta.append((e, exp, ins))
    done = 0
    for c, (e, exp, ins), got in zip(cases, meta, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        L, log = e["L"], e["log"]
        pre = len(c) - len(log)
        why, at = None, pre
        sh = got[pre - 1]
        if "p" not in sh:
            why = "got %s" % sh
        elif sh["out"] != [e["out"]] or sh["outsize"] != math.prod(e["out"]) or sh["insize"] != len(log[0]["in"]):
            why = "output shape %s size %s, input size %s; should be %s" % (sh["out"], sh["outsize"], sh["insize"], e["out"])
        elif not net.vclose(e["p"], sh["p"], 0):
            why = "learnable values %s, should be %s" % (sh["p"], e["p"])
        else:
            for i, s in enumerate(log):
                g, at = got[pre + i], pre + i + 1
                if "r" not in g:
                    why = "got %s" % g
                elif g.get("input_changed"):
                    why = "an input was modified"
                elif not net.vclose(exp[i], g["r"]):
                    why = "returned %s, should be %s" % (g["r"], exp[i])
                elif not g["same"]:
                    why = "what is returned is not what the layer reports as its last result"
                elif g.get("li") == 0:
                    why = "last_input() is not the input"
                elif s["op"] == "back" and not net.vclose(s["g"], g["g"]):
                    why = "gradients of the learnable values %s, should be %s" % (g["g"], s["g"])
                if why:
                    break
        if why:
            ctx.violation("%s: %s: %s" % (name, " ; ".join(core.show(z) for z in c[:at]), why), {"harness": "h_net", "lib": True, "commands": c[:at]})
    ctx.traces(done)
    if cases:
        ctx.sample({"layers": name, "calls": [core.show(z) for z in cases[len(cases) // 2][:6]]})
    ctx.log(name, len(prints), "behaviours,", done, "replays")


def judge(ctx, module, cfg, traces, name):
    """TLC on recorded traces; yields the printed records"""
    import json, os, tempfile
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump(traces, f)
    f.close()
    try:
        r = core.tlc(module, cfg, env={"RECORDED": f.name}, workers=4)
    finally:
        os.unlink(f.name)
    ctx.count_tlc(r, name)
    return r


def dropout(ctx, b):
    """random histories of dropout layers, judged by Dropout.tla"""
    rnd = random.Random(ctx.seed + 5)
    T = ctx.thorough
    cases, meta = [], []
    for q in range(240 if T else 80):
        rate, n, seed = (0, 2, 3, 4)[q % 4], rnd.randint(1, 8), rnd.randint(1, 10 ** 6)
        d = "dropout %s %d %r %d" % (core.hx("l"), n, rate / 4, seed)
        how = HOWS[(q // 4) % 4]
        if how in ("new", "late"):
            c = ["l%s 1 %s" % (how, d)]
        elif how == "clone":
            c = ["lnew 2 " + d, "lclone 2 1"]
        else:       # the rate comes from the loaded text
            c = ["lnew 2 " + d, "lnew 1 dropout %s %d 0.25 %d" % (core.hx("k"), n, seed), "lload 2 1"]
        steps, can = [], False
        val = lambda: [rnd.choice((-9, -4, -1, 1, 2, 3, 7)) for _ in range(n)]
        long = q < 16
        for s in range(400 if long else 12):
            op = "train" if long else rnd.choice(("train", "eval", "back") if can else ("train", "eval"))
            can = op == "train" or (can and op == "back")
            v = val()
            steps.append((op, v))
            c.append("%s 1 %s" % ({"train": "ltrain", "eval": "lfwd", "back": "lbwd"}[op], net.vec(v)))
        cases.append(c)
        meta.append((rate, n, steps, long))
    traces, back = [], []
    for c, (rate, n, steps, long), got in zip(cases, meta, core.run_cases(b, cases)):
        if got is None:
            continue
        pre, rec, ok = len(c) - len(steps), [], True
        for i, ((op, v), g) in enumerate(zip(steps, got[pre:])):
            y = g.get("r")
            if y is None or g.get("input_changed") or any(not isinstance(a, int) for a in y):
                ctx.violation("dropout: %s: got %s" % (core.show(c[pre + i]), g), {"harness": "h_net", "lib": True, "commands": c[:pre + i + 1]})
                ok = False
                break
            rec.append({"op": op, "x": v, "y": y})
        if not ok:
            continue
        drops = []
        if long:
            for i in range(n):
                drops.append([sum(1 for s in rec if len(s["y"]) == n and s["y"][i] == 0), len(rec)])
            rec = rec[:5]
        traces.append({"rate": rate, "steps": rec, "drops": drops})
        back.append((c, pre))
    r = judge(ctx, "Dropout", "SPECIFICATION Spec\nINVARIANTS Judge Often\n", traces, "dropout histories judged")
    seen = set()
    for p in r.prints:
        t = p["bad"] - 1
        if t in seen:
            continue
        seen.add(t)
        c, pre = back[t]
        why = "position %d dropped %d of %d times at rate %d/4" % (-p["k"], *traces[t]["drops"][-p["k"] - 1], traces[t]["rate"]) if p["k"] < 0 else "%s is not what a dropout layer of rate %d/4 does" % (traces[t]["steps"][p["k"] - 1], traces[t]["rate"])
        at = pre + (p["k"] if p["k"] > 0 else len(c) - pre)
        ctx.violation("dropout: %s: %s" % (" ; ".join(core.show(z) for z in c[:min(at, pre + 12)]), why), {"harness": "h_net", "lib": True, "commands": c[:at]})
    want = sum(len(t["steps"]) + 1 for t in traces)
    if not r.prints and r.distinct != want:
        raise core.CheckError("Dropout judged %d of %d states" % (r.distinct, want))
    ctx.traces(len(traces))
    ctx.log("dropout:", len(traces), "histories judged")
