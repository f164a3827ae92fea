"""C22: descriptions and the life of a described network, FnnBuild.tla and
FnnLife.tla; every transition replayed, predictions compared bit by bit with a
network put together layer by layer from the chain the specification gives."""
import json
import random
from vlib import core, net, tour
from vlib.models import chain

hx = core.hx
Z = dict(u=[0, 1, 1], f=0, k=[0, 0], s=[0, 0], p=[0, 0], rate=0, act="linear")
IN = lambda h, w=1, c=1: dict(Z, type="input", u=[h, w, c])
DE = lambda n, act="linear": dict(Z, type="dense", u=[n, 1, 1], act=act)
CO = lambda f, k, s=(1, 1), p=(0, 0), act="linear": dict(Z, type="conv", f=f, k=list(k), s=list(s), p=list(p), act=act)
MX = lambda k, s=(1, 1), act="linear": dict(Z, type="max", k=list(k), s=list(s), act=act)
AV = lambda k, s=(1, 1), act="linear": dict(Z, type="avg", k=list(k), s=list(s), act=act)
DR = lambda rate, act="linear": dict(Z, type="dropout", rate=rate, act=act)
FIT = lambda opt, epochs, batch, rate, seed, data: {"opt": opt, "epochs": epochs, "batch": batch, "rate": rate, "seed": seed, "data": data}
TYPES = {"dense": 0, "conv": 1, "max": 2, "avg": 3, "dropout": 4, "input": 5}
ACTS = {"relu": 0, "elu": 1, "softmax": 2, "tanh": 3, "sigmoid": 4, "linear": 5, "none": 6}


def text(d, way, name):
    return "%d %s %s %s %d %d %d %d %d %d %d %d %d %d %r" % (way, d["type"], hx(name), d["act"], *d["u"], d["f"], *d["k"], *d["s"], *d["p"], float(d["rate"]))


def value(i):
    return ((i * 37 + 11) % 29 - 14) / 8


def insize(L):
    return L["h"] * L["w"] * L["c"] if "h" in L else L["in"]


def widths(layers):
    """inputs and outputs (the last layer is an activation)"""
    return (insize(layers[0]), layers[-1]["in"]) if layers else (3, 1)


def rows(i, o, which):
    """labelled data set `which`: (inputs, one-hot targets)"""
    n = (4, 3, 5)[which - 1]
    return [([value(which * 7 + r * 5 + j * 3) for j in range(i)], [1.0 if (r * 2 + which) % o == j else 0.0 for j in range(o)]) for r in range(n)]


def data(k, i, o, which, labels=True):
    rs = rows(i, o, which)
    flat = [v for x, t in rs for v in (x + t if labels else x)]
    lab = list(range(i, i + o)) if labels else []
    return "data %d %d %s %s" % (k, i + len(lab), net.vec(lab), net.vec(flat))


class Reference:
    """networks assembled by hand from a chain, each built once"""

    def __init__(self, b):
        self.b, self.want, self.cases = b, {}, []

    def ask(self, layers, comp, mode, fit):
        key = json.dumps([layers, comp, mode, fit], sort_keys=True)
        if key not in self.want:
            i, o = widths(layers)
            ls = [dict(L, alpha=1.0) if L["kind"] == "elu" else L for L in layers]
            a = fit[0]["args"] if fit else None
            if fit:
                ls = ls + [{"kind": comp[0]["loss"], "in": o, "batch": a["batch"], "tol": 0.1}]
            c = net.build_model(1, ls, chain(len(ls)), "m", [[]] * len(ls))
            if fit:
                c.append("minit 1 %s normal %d" % ({"he": "kaiming"}.get(comp[0]["init"], comp[0]["init"]), a["seed"]))
                r = a["rate"] / 100
                c.append("onew 1 gd %r" % r if fit[0]["opt"] == "gd" else "onew 1 adam %r 0.9 0.999 1e-8" % r)
                c += [data(1, i, o, a["data"]), "mfit 1 1 1 %s %d %d 2 lazy" % (mode, a["epochs"], a["batch"])]
            n = len(c)
            rs = rows(i, o, 2)
            c += ["mpredict 1 %s" % net.vec(x) for x, t in rs]
            self.want[key] = (len(self.cases), n, len(rs), comp[0]["loss"] if comp else None, o)
            self.cases.append(c)
        return key

    def run(self, ctx):
        first = core.run_cases(self.b, self.cases)
        # the score of the predictions, by a loss of its own
        second, keys = [], []
        for key in list(self.want):
            j, n, k, loss, o = self.want[key]
            if first[j] is None or not all("r" in x for x in first[j][n:n + k]):
                if first[j] is not None:
                    ctx.violation("a network assembled layer by layer does not predict: %s" % first[j][-1], {"harness": "h_fnn", "lib": True, "commands": self.cases[j]})
                self.want[key] = None
                continue
            keys.append(key)
            c = ["lnew 1 %s" % net.describe({"kind": loss or "mse", "in": o, "batch": 1, "tol": 0.1}, "l")]
            for m in range(k):
                x = first[j][n + m]
                c += ["ltarget 1 %s" % net.vec(rows(1, o, 2)[m][1]), "lfwd 1 %d %s" % (len(x["r"]), " ".join(map(str, x["r"])))]
            second.append(c + ["lshow 1"])
        for key, got in zip(keys, core.run_cases(self.b, second)):
            j, n, k, loss, o = self.want[key]
            if got is None:  # the harness did not survive: reported by the check of sanitized runs
                self.want[key] = None
                continue
            self.want[key] = ([first[j][n + m]["r"] for m in range(k)], got[-1]["loss"], got[-1]["acc"])


def explore(ctx, b, name, kind, mode, descs, lists, maxlen, fits, comps, losses, real=None, walk=60):
    """real: kind of network in the harness that plays `kind`"""
    real = real or kind
    r = core.tlc("FnnLife", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW View\nINVARIANTS Sound Counted\nPROPERTY Frame\nACTION_CONSTRAINT Emit\n", coverage=True, heap="8g",
                 defs={"Kind": net.tla(kind), "Descs": net.tla(descs), "Lists": net.tla(lists), "MaxLen": maxlen, "FitArgs": net.tla(tuple(fits)), "Comps": net.tla(tuple(comps)), "Losses": net.tla(tuple(losses))})
    ctx.count_tlc(r, name)
    g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
    inits = [s for s in g.states if not s["fit"] and (s["ds"] == [] if kind == "grow" else True) and (s["comp"] == [] if kind in ("dyn", "many") else True)]
    threads = core.SAN and core.SAN.kind == "threads"
    ref, rnd, cases, expects = Reference(b), random.Random(ctx.seed), [], []
    for s in inits:
        for s0, steps in g.walks(rnd, walk, anywhere=False, start=s):
            c, e = [], []

            def say(cmd, want=None):
                c.append(cmd)
                e.append(want)
            way = rnd.randrange(3)
            lay = lambda d: text(descs[d - 1], rnd.randrange(3), "n%d" % d)
            cm = s["comp"][0] if s["comp"] else {"loss": "mse", "init": "auto"}
            ds = [] if kind == "grow" else s["ds"]
            bad = kind == "fixed" and any(descs[d - 1]["type"] == "input" for d in ds[1:])
            if mode != "seq":
                say("sched 2 threads" if threads else "sched 2 %s" % rnd.choice(("lazy", "eager", "last", "fibers %d %d" % (rnd.randrange(10 ** 6), rnd.choice((1, 4, 20))))))
            say("fnew 1 %s %s %s %s %d %s" % (real, mode, cm["loss"], cm["init"], len(ds), " ".join(lay(d) for d in ds)), "refused" if bad else None)
            for st, o, t in ([] if bad else steps):
                t = g.states[t]
                k, layers = o["op"], t["chain"]
                i, w = widths(layers)
                comp = t["comp"]
                if k == "add":
                    say("fadd 1 " + lay(o["d"]), None if o["ok"] else "refused")
                elif k == "compile":
                    x = o["c"]
                    default = x == {"loss": "mse", "opt": "adam", "init": "auto"} and rnd.random() < .5
                    say("fcompile 1 default gd none" if default else "fcompile 1 %s %s %s" % (x["loss"], x["opt"], x["init"]), None if o["ok"] else "refused")
                elif k == "nosuch":
                    say(rnd.choice(("fcompile 1 none gd none", "fcompile 1 none adam he", "fcompile 1 cce gd none")), "refused")
                elif k == "fit":
                    f = o["f"]
                    if f["data"]:
                        say(data(1, i, w, f["data"]))
                    if mode != "seq" and rnd.random() < .3:
                        say("sched 2 threads" if threads else "sched 2 fibers %d %d" % (rnd.randrange(10 ** 6), rnd.choice((1, 3, 9))))
                    say("ffit 1 1 %s %d %d %r %d" % (f["opt"], f["epochs"], f["batch"], f["rate"] / 100, f["seed"]), ("same",) if o["ok"] else "refused")
                elif k == "sizes":
                    say("fsizes 1", ("sizes", [i, w] if layers else [0, 0]) if o["ok"] else "refused")
                else:
                    say(data(2, i, w, 2, labels=k == "eval"))
                    key = ref.ask(layers, comp, mode, t["fit"]) if o["ok"] else None
                    say(("fpredict" if k == "predict" else "feval") + " 1 2", (k, key, w) if o["ok"] else "refused")
            cases.append(c)
            expects.append(e)
    ref.run(ctx)
    done = 0
    for c, e, got in zip(cases, expects, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        for j, (x, want, cmd) in enumerate(zip(got, e, c)):
            why = None
            if "crash" in x:
                why = "ends the process: %s" % x["crash"]
            elif want == "refused":
                if "ex" not in x:
                    why = "was accepted with %s" % x
            elif "ex" in x:
                why = "was refused"
            elif want and len(want) == 3 and ref.want[want[1]] is None:
                continue
            elif want and x.get("same", 1) != 1:
                why = "changed its data set"
            elif want and want[0] == "sizes" and x["sizes"] != want[1]:
                why = "gives sizes %s, should be %s" % (x["sizes"], want[1])
            elif want and want[0] == "predict":
                y = ref.want[want[1]][0]
                if x["rows"] != y or x["width"] != want[2]:
                    why = "predicts %s of width %s, should be %s of width %d" % (x["rows"], x["width"], y, want[2])
            elif want and want[0] == "eval":
                loss, acc = ref.want[want[1]][1:]
                L, A = net.val(loss), net.val(acc)
                y = [loss, acc, A * 100, 1 - A, (1 - A) * 100]
                if x["score"][:2] != y[:2] or not net.vclose(y, x["score"]):
                    why = "scores %s, should be %s" % (x["score"], y)
            if why:
                ctx.violation("%s: '%s' %s" % (name, core.show(cmd), why), {"harness": "h_fnn", "lib": True, "commands": c[:j + 1]})
                break
    ctx.traces(done)
    with core.LOCK:
        ctx.cov["reference networks"] = ctx.cov.get("reference networks", 0) + len(ref.cases)
    if len(cases) > 3:
        ctx.sample({"networks": name, "history": [core.show(x) for x in cases[len(cases) // 3]][:12]})
    ctx.log(name, r.distinct, "states", len(r.prints), "transitions", len(cases), "walks", len(ref.cases), "reference networks")


def descriptions(ctx, b, descs):
    """a description says what it was made with, whatever way it was made"""
    cases = [["desc " + text(d, w, "name %d" % i)] for i, d in enumerate(descs) for w in range(3)]
    want = [d for d in descs for w in range(3)]
    n = 0
    for c, d, got in zip(cases, want, core.run_cases(b, cases)):
        if got is None:
            continue
        n += 1
        x = got[0]
        e = {"type": TYPES[d["type"]], "act": ACTS["linear" if d["type"] == "input" and c[0].split()[1] == "0" else d["act"]], "f": d["f"], "k": d["k"], "s": d["s"], "p": d["p"]}
        bad = [k for k in e if x.get(k) != e[k]]
        if bad or net.val(x["rate"]) != d["rate"] or (x["u"] != d["u"] if d["type"] == "input" else x["u"][0] * x["u"][1] * x["u"][2] != d["u"][0]):
            ctx.violation("the description '%s' says %s" % (core.show(c[0]), x), {"harness": "h_fnn", "lib": True, "commands": c})
    ctx.traces(n)


def run(ctx):
    b = core.build("h_fnn", lib=True)
    T = ctx.thorough
    one = FIT("gd", 1, 2, 10, 5, 1)
    AUTO = [{"loss": "mse", "opt": "gd", "init": "auto"}]
    pool = [IN(4, 4, 1), IN(3, 2, 2), IN(5), DE(3, "relu"), DE(2, "none"), CO(2, (2, 2), act="relu"), CO(1, (2, 1), (2, 1), (1, 0), "tanh"),
            MX((2, 1), act="sigmoid"), AV((1, 2), (1, 2)), DR(0, "elu"), DR(1), CO(2, (1, 1), (1, 2), (0, 1), "softmax")]
    pool2 = [IN(2, 3, 2), DE(4, "elu"), DE(1, "sigmoid"), DE(6, "softmax"), DE(3, "tanh"), CO(3, (1, 2), (1, 1), (1, 1), "elu"), AV((2, 2), (1, 1), "relu"), MX((1, 1), (2, 2), "none"), DR(0, "softmax"), CO(1, (2, 2), (2, 2), (1, 1), "none")]
    descriptions(ctx, b, pool + pool2 + [IN(7, 2, 3), IN(2, 5)])
    items = []

    def add(*a, **k):
        items.append((ctx, b) + a + (k,))
    n = 5 if T else 4
    mse = [{"loss": "mse", "init": "auto"}]
    cce = [{"loss": "cce", "init": "xavier"}]
    add("adding, first pool", "grow", "seq", pool, [], n if not T else 4, [one], [], mse)
    add("adding, second pool", "grow", "seq", pool2, [], n, [FIT("adam", 2, 1, 20, 9, 2)], [], cce)
    settings = [{"loss": l, "init": i} for l in ("mse", "cce") for i in ("he", "xavier", "auto")]
    small = [IN(4), IN(3, 3, 1), DE(3, "relu"), DE(2, "softmax"), CO(2, (2, 2), act="tanh"), DR(0)]
    fits = [FIT("gd", 2, 2, 10, 3, 1), FIT("adam", 1, 1, 25, 3, 2), FIT("gd", 1, 3, 50, 11, 2), FIT("adam", 0, 2, 10, 4, 1)]
    for mode in ("seq", "entry", "batch"):
        add("adding and fitting, %s" % mode, "grow", mode, small, [], 4 if T else 3, fits if mode == "seq" or T else fits[:3], [], settings if mode == "seq" or T else settings[1:4])
        lists = [[], [1], [1, 3], [1, 3, 4], [2, 5, 6, 4], [1, 4, 1], [2, 1, 3]]
        add("given at construction, %s" % mode, "fixed", mode, small, lists, 0, fits, [], settings)
        comps = [{"loss": l, "opt": o, "init": i} for l in ("mse", "cce") for o in ("gd", "adam") for i in ("he", "xavier", "auto")]
        few = comps if mode == "seq" or T else comps[1::3] + [{"loss": "mse", "opt": "adam", "init": "auto"}]
        for real in ("dyn", "one", "all"):
            sz = real == "dyn"
            add("compiled, %s, %s" % (real, mode), "dyn" if sz else "many", mode, small, lists, 0, fits if sz else fits[:2], few if sz else few[::2], [], real=real)
    narrow = [IN(3), DE(1, "sigmoid"), DE(2, "relu"), IN(1), DE(1, "softmax")]
    for real in ("dyn", "one"):
        add("one output, %s" % real, "dyn" if real == "dyn" else "many", "seq", narrow, [[1, 2], [1, 3, 2], [4, 5]] if real == "dyn" else [[4, 2]], 0, fits[:2], comps, [], real=real)
    for kind in ("grow", "fixed"):
        add("one output, %s" % kind, kind, "seq", narrow, [] if kind == "grow" else [[1, 2], [4, 3, 5]], 3 if kind == "grow" else 0, fits[:2], [], settings)
    ctx.each(lambda c, h, *a: explore(c, h, *a[:-1], **a[-1]), items)
