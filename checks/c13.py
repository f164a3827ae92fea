"""C13: walks over every transition of NetGraph.tla replayed into the code; the run
orders the code gives are judged by TLC (RunJudge.tla)."""
import json, os, random, tempfile
from vlib import core, tour

hx = core.hx
q = lambda s: '"%s"' % s


def cmd(o):
    k = o["op"]
    if k in ("node", "loss"):
        return "%s %s" % (k, hx(o["l"]))
    if k == "arcs":
        l = lambda x: "%d %s" % (len(x), " ".join(hx(y) for y in x))
        return "arcs %s %s %s %s" % (o["kind"], o["form"], l(o["fs"]), l(o["ts"]))
    return k


def expected(s):
    pairs = lambda es: sorted([list(e) for e in es])
    nodes, losses = s["nodes"], s["losses"]
    plain = [n for n in nodes if n not in losses]
    return {"nodes": nodes, "losses": losses, "plain": plain,
            "inputs": [n for n in plain if not any(e[1] == n for e in s["fwd"])],
            "outputs": [n for n in plain if not any(e[0] == n for e in s["fwd"])],
            "fwd": pairs(s["fwd"]), "tfw": pairs(s["tfw"]), "bwd": pairs(s["bwd"]), "wrong": []}


def judge(ctx, recorded, what):
    """recorded: {json key: (record, replay)}; TLC says which runs are not runs of their graph"""
    recs = list(recorded.values())
    n = 0
    for at in range(0, len(recs), 20000):
        part = recs[at:at + 20000]
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump([r for r, _ in part], f)
        try:
            r = core.tlc("RunJudge", "SPECIFICATION Spec\nINVARIANT Judge\n", env={"RECORDED": f.name}, workers=4)
        finally:
            os.unlink(f.name)
        n += r.distinct
        if r.distinct != len(part):
            raise core.CheckError("the judge saw %d of %d runs" % (r.distinct, len(part)))
        for p in r.prints:
            rec, rep = part[p["bad"] - 1]
            ctx.violation("%s run %s is not a run of the arcs %s from %s" % (rep["pass"], rec["run"], rec["e"], rec["s"]), rep)
    ctx.cov["runs judged by TLC, " + what] = n


def run(ctx):
    b = core.build("h_graph", lib=True)
    T = ctx.thorough
    rnd = random.Random(ctx.seed)
    S = lambda xs: "<<%s>>" % ",".join(map(q, xs))
    St = lambda xs: "{%s}" % ",".join(map(q, xs))
    base = dict(Lists="{}", Copies="FALSE", DagOnly="FALSE", Preset="<<>>")
    runs = [
        ("every call, layers added in every order", dict(base, Pool=St(["a", "b", "x"]), LossPool=St(["x"]), Kinds='{"edge","fwd","bwd"}',
            Lists='{<<"b","b">>,<<"a","x">>,<<"b">>,<<"x">>}' if T else '{<<"a","x">>,<<"b">>}', MaxArcs=2)),
        ("copies", dict(base, Pool=St(["a", "b", "x"]), LossPool=St(["x"]), Kinds='{"edge"}', MaxArcs=4 if T else 3, Copies="TRUE", Lists='{<<"a","b">>}')),
        ("two losses", dict(base, Pool=St(["a", "b", "x", "xy"]), LossPool=St(["x", "xy"]), Kinds='{"edge"}',
            Preset="<<>>" if T else S(["xy", "b"]), MaxArcs=4 if T else 3)),
        ("graphs without cycles on four layers and a loss", dict(base, Pool=St(["a", "b", "c", "d", "x"]), LossPool=St(["x"]), Kinds='{"edge"}',
            Preset=S(["c", "a", "x", "d", "b"]), MaxArcs=7 if T else 5, DagOnly="TRUE")),
        ("graphs with cycles", dict(base, Pool=St(["a", "b", "c", "x"]), LossPool=St(["x"]), Kinds='{"edge"}', Preset=S(["b", "a", "c", "x"]), MaxArcs=5 if T else 4)),
        ("lists of layers", dict(base, Pool=St(["a", "b", "c", "x", "o"] if T else ["a", "b", "c", "x"]), LossPool=St(["x"]), Kinds='{"edge","fwd"}' if T else '{"edge"}',
            Preset=S(["a", "b", "c", "x"]), Lists='{<<"a","b">>,<<"c","b">>,<<"b","c","a">>,<<>>,<<"o","b">>,<<"a","o">>}', MaxArcs=4, DagOnly="TRUE")),
    ]
    if T:
        runs.append(("graphs without cycles on five layers", dict(base, Pool=St("abcde"), LossPool="{}", Kinds='{"fwd"}', Preset=S("dbeac"), MaxArcs=5, DagOnly="TRUE")))
    for name, defs in ctx.some(runs):
        r = core.tlc("NetGraph", "SPECIFICATION Spec\nVIEW View\nINVARIANTS WellFormed Runnable\nPROPERTY Laws\nACTION_CONSTRAINT Emit\n",
                     coverage=True, heap="8g", defs=defs)
        ctx.count_tlc(r, name)
        g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
        start = r.prints[0]["a"]
        del r.prints
        cases, walks = [], []
        for s0, steps in g.walks(rnd, 40, anywhere=False, start=start):
            pre = ["%s %s" % ("loss" if n in g.states[s0]["losses"] else "node", hx(n)) for n in g.states[s0]["nodes"]]
            cases.append(pre + [cmd(o) for _, o, _ in steps])
            walks.append((len(pre), steps))
        recorded, ok = {}, 0
        exp = {}
        for c, (skip, steps), got in zip(cases, walks, core.run_cases(b, cases)):
            if got is None:
                continue
            ok += 1
            for i, ((s, o, t), x) in enumerate(zip(steps, got[skip:])):
                rep = {"harness": "h_graph", "lib": True, "commands": c[:skip + i + 1]}
                d, why = x, None
                if o["bad"]:
                    if x.get("ex") != "error":
                        why = "should be refused, got %s" % (x,)
                    d = x.get("after", {})
                elif "ex" in x or "crash" in x:
                    why = "got %s" % (x,)
                if not why:
                    if t not in exp:
                        exp[t] = expected(g.states[t])
                    for k, v in exp[t].items():
                        w = d.get(k)
                        if k in ("fwd", "tfw", "bwd") and w is not None:
                            w = sorted(w)
                        if w != v:
                            why = "%s is %s, should be %s" % (k, w if w is not None else d, v)
                            break
                if why:
                    ctx.violation("%s: %s" % (" ; ".join(core.show(z) for z in c[:skip + i + 1]), why), rep)
                    break
                e = exp[t]
                for p, arcs, s_, r_ in (("evaluation", e["fwd"], e["inputs"], d["run_f"]), ("training", e["tfw"], e["inputs"], d["run_t"]),
                                        ("gradient", e["bwd"], e["losses"], d["run_b"])):
                    rec = {"e": arcs, "s": s_, "run": r_}
                    recorded.setdefault(json.dumps(rec), (rec, dict(rep, **{"pass": p, "run": r_})))
        ctx.traces(ok)
        ctx.sample({"walk": [core.show(z) for z in cases[0][:6]]})
        judge(ctx, recorded, name)
        ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks", len(recorded), "runs judged")
