"""C29: the tasks of a parallel training as threads, and histories of every part
of the library two at a time, under the thread sanitizer.  TrainRace.tla says
which accesses may meet; TrainLoop.tla what is learned all the same."""
import random
from vlib import core, net, sanrun
from vlib.models import chain, params
from checks.c21 import networks

PAIRS = "C14 C23 C15 C18 C17 C13 C19 C20 C24 C05 C12 C26 C25 C11 C02 C03".split()
SHARE = {"C13": .3, "C14": .4, "C15": .5, "C17": .5, "C18": .3, "C19": .4, "C23": .5, "C24": .5, "C21": .6, "C22": .6}


def races(ctx):
    """the specification: no two accesses that could meet conflict"""
    name, layers, p0, xs, ts = list(networks())[0]
    p0 = p0 or params(layers, 1)
    fwd = tuple([i, i + 1] for i in range(1, len(layers)))
    T = ctx.thorough
    for mode, n, batch, epochs, workers in [("entry", 3, 2, 2, 1), ("entry", 4, 3, 1, 1), ("batch", 4, 1, 2, 2), ("batch", 5, 2, 1, 3)] + ([("entry", 5, 4, 1, 1), ("batch", 6, 2, 2, 3), ("batch", 5, 1, 1, 4)] if T else []):
        r = core.tlc("TrainRace", "SPECIFICATION Spec\nVIEW NoLog\nINVARIANTS NoRace Confluent\n", small=not T, coverage=True, defs={
            "Net": net.tla(layers), "Fwd": net.tla(fwd), "Bwd": net.tla(tuple([j, i] for i, j in fwd)), "Mode": net.tla(mode),
            "Rows": net.tla([{"x": x, "t": t} for x, t in zip(xs[:n], ts[:n])]), "Batch": batch, "Epochs": epochs, "Workers": workers, "P0": net.tla(p0), "Atomic": "FALSE"})
        ctx.count_tlc(r, "accesses, %s, %d rows, batch %d, %d workers" % (mode, n, batch, workers))


def run(ctx):
    races(ctx)
    core.SAN = core.Sanitized(random.Random(ctx.seed), 10 ** 9, "threads")
    b = core.build("h_train", lib=True)
    names = [("h_data", False), ("h_fnn", True), ("h_graph", True), ("h_json", False), ("h_math", True), ("h_math", False), ("h_net", True), ("h_text", False), ("h_csv", False)]
    ctx.each(lambda n, l: core.build(n, lib=l), names, jobs=8)
    core.run_cases(b, [["race"]])                  # would a race be noticed?
    if not core.SAN.reports:
        raise core.CheckError("the thread sanitizer does not report a race here")
    # names of what is made without one, in two threads at once
    seen = set()
    core.SAN = core.Sanitized(random.Random(ctx.seed), 10 ** 9, "threads")
    core.SAN.in_pairs()
    cases = [["unnamed %d" % (1 + i % 40)] for i in range(200)]
    got = core.run_cases(core.build("h_net", lib=True), cases)
    sanrun.report(ctx, {"prop": "names", "reports": core.SAN.reports}, "pairs", seen)
    for c, d, x, y in zip(cases[::2], cases[1::2], got[::2], got[1::2]):
        if x and y and len(set(x[0] + y[0])) < len(x[0] + y[0]):
            ctx.violation("two layers or models made in two threads have one name", {"harness": "h_net", "lib": True, "sanitized": "pairs", "commands": c + ["#"] + d})
            break
    ctx.traces(len(cases))
    core.SAN = None
    T = ctx.thorough
    share = lambda p: 1 if T else SHARE.get(p, 1)
    todo = [(p, "threads", 1500 if T else 120, share(p)) for p in ("C21", "C22")] + [(p, "pairs", 1500 if T else 120, share(p)) for p in PAIRS]
    for (p, kind, _, _), d in zip(todo, sanrun.parts(ctx, todo)):
        sanrun.report(ctx, d, kind, seen)
        for w, r in d["wrong"][:3]:
            ctx.violation("with threads, %s: %s" % (p, w), dict(r, sanitized=kind))
    ctx.sample({"parts": {k: v["ran"] for k, v in ctx.cov["parts"].items()}})
    ctx.assumptions.append("accesses that no run of these histories makes are not judged; the thread sanitizer keeps a few accesses of each word")
