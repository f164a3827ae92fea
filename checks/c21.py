"""C21: TrainLoop.tla explored for every schedule; its schedules, and many
finer interleavings, replayed into the training loops."""
import random
from vlib import core, net
from vlib.models import D, R, MSE, chain, params

MODES = ("seq", "entry", "batch")


def networks():
    yield "one dense layer", [D(1, 1), MSE(1, 0, 2)], [[1, 0], []], [[1], [-1], [0], [1], [2], [-1]], [[2], [1], [-1], [3], [0], [1]]
    yield "dense, relu, dense", [D(1, 2), R(2), D(2, 1), MSE(1, 0, 2)], None, [[1], [-1], [0], [1], [-1], [1]], [[1], [0], [-1], [2], [1], [1]]
    yield "two outputs", [D(2, 2), MSE(2, 1, 2)], None, [[1, 0], [0, 1], [-1, 1], [1, 1], [0, -1], [1, 0]], [[0, 1], [1, 1], [2, 0], [-1, 1], [1, 0], [0, 0]]


def schedule(log):
    """events of a round -> decisions at the points where the code asks"""
    # ids in the log are per round; rounds follow each other
    dec, base, size, last = [], 0, 0, None
    for what, j in log:
        if what == "e":
            if last == "g":
                base, size = base + size, 0
            size = j + 1
            dec.append(["e", base + j, []])
        elif what == "g":
            if not (dec[-1][0] == "w"):
                dec.append(["g", base + j, []])
            else:
                dec[-1][0], dec[-1][1] = "g", base + j
        else:
            if last == "g" or dec[-1][0] == "g":
                dec.append(["w", None, []])
            dec[-1][2].append(base + j)
        last = what
    dec = [d for d in dec if d[2]]
    return "script %d %s" % (len(dec), " ".join("%s %d %d %s" % (d[0], d[1], len(d[2]), " ".join(map(str, d[2]))) for d in dec))


def case(name, layers, p0, rows, mode, batch, epochs, workers, sched, opt="gd 1"):
    c = net.build_model(1, layers, chain(len(layers)), "m", p0)
    c.append("onew 1 " + opt)
    w, lab = len(rows[0]["x"]) + len(rows[0]["t"]), len(rows[0]["t"])
    flat = [v for r in rows for v in r["x"] + r["t"]]
    c.append("data 1 %d %d %s %s" % (w, lab, " ".join(str(w - lab + i) for i in range(lab)), net.vec(flat)))
    c.append("mfit 1 1 1 %s %d %d %d %s" % (mode, epochs, batch, workers, sched))
    return c


def explore(ctx, b, tag, name, layers, p0, rows, mode, batch, epochs, workers, emit, fine, fibers):
    n = len(layers)
    fwd = tuple([i, i + 1] for i in range(1, n))
    defs = {"Net": net.tla(layers), "Fwd": net.tla(fwd), "Bwd": net.tla(tuple([j, i] for i, j in fwd)), "Mode": net.tla(mode), "Rows": net.tla(rows),
            "Batch": batch, "Epochs": epochs, "Workers": workers, "P0": net.tla(p0)}
    if fine:        # every interleaving row by row, properties only
        r = core.tlc("TrainLoop", small=not ctx.thorough, cfg="SPECIFICATION Spec\nVIEW NoLog\nINVARIANTS Confluent Once\nPROPERTY Quiet\n", coverage=True, heap="6g", defs=dict(defs, Atomic="FALSE"))
        ctx.count_tlc(r, "%s, interleaved: %s" % (name, tag))
    r = core.tlc("TrainLoop", small=not ctx.thorough, cfg="SPECIFICATION Spec\n%sINVARIANTS Confluent Once EmitEnd\nPROPERTY Quiet\n" % ("" if emit else "VIEW NoLog\n"), coverage=True, heap="6g", defs=dict(defs, Atomic="TRUE"))
    ctx.count_tlc(r, "%s: %s" % (name, tag))
    rnd = random.Random(ctx.seed)
    want = r.prints[0]["p"]
    scheds = [schedule(p["log"]) for p in r.prints] if mode != "seq" and emit else []
    if mode != "seq":
        scheds += ["lazy", "eager", "last"] + ["fibers %d %d" % (rnd.randrange(10 ** 6), rnd.choice((1, 2, 4, 10, 40))) for _ in range(fibers)]
    else:
        scheds = ["lazy"]
    if core.SAN and core.SAN.kind == "threads":
        scheds = ["threads %d" % i for i in range(4)]
    scheds = list(dict.fromkeys(scheds))
    cases = [case(name, layers, p0, rows, mode, batch, epochs, workers, s) for s in scheds]
    done = switches = 0
    for c, s, got in zip(cases, scheds, core.run_cases(b, cases)):
        if got is None:
            continue
        done += 1
        x, why = got[-1], None
        if "m" not in x:
            why = "got %s" % x
        elif x.get("input_changed"):
            why = "an input was modified"
        else:
            switches += x["switches"]
            for l, L in enumerate(layers[:-1]):
                if not net.vclose(want[l], x["m"][0]["layers"][l]["p"]):
                    why = "layer %d learned %s, should be %s" % (l + 1, x["m"][0]["layers"][l]["p"], want[l])
                elif any(x["m"][0]["layers"][l]["g"]):
                    why = "layer %d is left with gradients %s" % (l + 1, x["m"][0]["layers"][l]["g"])
        if why:
            ctx.violation("%s, %s, schedule %s: %s" % (name, tag, s, why), {"harness": "h_train", "lib": True, "commands": c})
    ctx.traces(done)
    with core.LOCK:
        ctx.cov["fiber switches"] = ctx.cov.get("fiber switches", 0) + switches
        ctx.cov["schedules"] = ctx.cov.get("schedules", 0) + len(scheds)
    if emit and len(scheds) > 5:
        ctx.sample({"network": name, "training": tag, "schedule": scheds[len(scheds) // 3]})
    ctx.log(name, tag, r.distinct, "states", len(scheds), "schedules")


def adam(ctx, b, name, layers, p0, rows, count):
    """the learned values under Adam do not depend on the schedule either"""
    rnd = random.Random(ctx.seed + 3)
    done = 0
    for mode, batch, workers in (("entry", 2, 2), ("entry", 3, 3), ("batch", 1, 3), ("batch", 2, 2)):
        scheds = ["lazy", "eager", "last"] + ["fibers %d %d" % (rnd.randrange(10 ** 6), rnd.choice((1, 3, 9))) for _ in range(count)]
        if core.SAN and core.SAN.kind == "threads":
            scheds = ["threads %d" % i for i in range(count)]
        cases = [case(name, layers, p0, rows, mode, batch, 2, workers, s, "adam 0.1 0.9 0.99 1e-8") for s in scheds]
        ref = None
        for c, s, got in zip(cases, scheds, core.run_cases(b, cases)):
            if got is None:
                continue
            done += 1
            x = got[-1]
            v = [l["p"] for l in x["m"][0]["layers"]] if "m" in x else x
            if ref is None:
                ref = (v, c)
            elif v != ref[0]:
                ctx.violation("%s, Adam, %s, batch %d, %d workers: schedules lazy and %s learn %s and %s" % (name, mode, batch, workers, s, ref[0], v),
                              {"harness": "h_train", "lib": True, "commands": ref[1] + ["#"] + c})
    ctx.traces(done)


def run(ctx):
    b = core.build("h_train", lib=True)
    T = ctx.thorough
    items = []
    for name, layers, p0, xs, ts in networks():
        p0 = p0 or params(layers, 1)
        rows = lambda n: [{"x": x, "t": t} for x, t in zip(xs[:n], ts[:n])]
        deep = name != "two outputs"

        def add(mode, n, batch, epochs, workers, emit=True, fine=True, fibers=30):
            items.append((ctx, b, "%s, %d rows, batch %d, %d epochs, %d workers" % (mode, n, batch, epochs, workers), name, layers, p0, rows(n), mode, batch, epochs, workers, emit, fine, fibers * (5 if T else 1)))
        for n, batch, epochs in ((1, 1, 1), (2, 1, 2), (3, 2, 1), (4, 3, 1), (3, 5, 2), (5, 2, 1), (2, 2, 0), (6, 4, 1), (1, 3, 3)):
            add("seq", n, batch, epochs, 1, fine=False)
        for n, batch, epochs in ((3, 2, 1), (3, 3, 1), (4, 2, 1), (1, 2, 2), (2, 1, 2)) + (((5, 3, 1), (3, 2, 2), (4, 4, 1)) if T and deep else ()):
            add("entry", n, batch, epochs, 1)
        add("entry", 6, 4, 1, 1, emit=False, fine=T)
        for n, batch, epochs, workers in ((3, 1, 1, 2), (4, 2, 1, 2), (5, 2, 1, 3), (3, 2, 1, 1), (2, 1, 1, 3), (1, 2, 2, 2)) + (((4, 1, 1, 3), (5, 2, 2, 2), (3, 1, 2, 2), (7, 2, 1, 4)) if T and deep else ()):
            add("batch", n, batch, epochs, workers)
        add("batch", 6, 1, 1, 4, emit=False, fine=False)
    ctx.each(explore, items)
    for name, layers, p0, xs, ts in networks():
        adam(ctx, b, name, layers, p0 or params(layers, 1), [{"x": x, "t": t} for x, t in zip(xs, ts)][:5], 40 if T else 10)
