"""C12: walks over every transition of DataOps.tla replayed into the code, every
derived data set compared through all its accessors; long random histories
recorded from the code are checked against the specification by TLC."""
import random
from vlib import core, tour, data

U = 64


def tla_ds(w, seq, labs, rows):
    return "[w |-> %d, seq |-> %d, labs |-> {%s}, rows |-> <<%s>>]" % (
        w, seq, ",".join(map(str, labs)), ",".join("<<%s>>" % ",".join(str(v * U) for v in r) for r in rows))


def mk(w, seq, labs, rows):
    return {"w": w, "seq": seq, "labs": labs, "rows": rows}


def build_cmd(k, d, unit=1):
    return "vec %d %d %d %s %s" % (k, d["w"], d["seq"], data.n(sorted(d["labs"])), data.n(["%r" % (v / unit) for r in d["rows"] for v in r]))


def op_cmd(o, b):
    n = data.n
    k = o["op"]
    if k == "sub":
        return "sub 0 %d %d" % (o["from"], o["to"])
    if k == "subp":
        return "subp 0 %r" % (o["e"] / 8)
    if k == "split":
        return "split 0 %r %s" % (o["e"] / 8, o["side"])
    if k == "join":
        return "join 0 %d %d %d" % (o["j"], o["axis"], o["first"])
    if k == "self":
        return "join 0 0 %d 1" % o["axis"]
    if k == "shuffle":
        return "shuffleto 0 %s" % n(["%r" % (v / U) for r in b["rows"] for v in r])
    if k == "scale":
        return "scale 0 %r %r %s" % (o["lo"] / U, o["hi"] / U, n(o["cs"]))
    if k == "norm":
        return "norm 0"
    if k == "labs":
        return "labs 0 %s" % n(o["l"])
    if k == "seq":
        return "seq 0 %d" % o["s"]
    return k + " 0"


def dump_of(d):
    """Dump(d) of DataRows.tla"""
    rows, seq = d["rows"], d["seq"]
    labs = sorted(d["labs"])
    ins = [c for c in range(d["w"]) if c not in d["labs"]]
    nseq = len(rows) // seq if seq else 0
    pick = lambda r, cs: [r[c] for c in cs]
    sq = lambda f: [sum((f(r) for r in rows[k * seq:(k + 1) * seq]), []) for k in range(nseq)]

    def sh(cs):
        return {"w": len(cs) if rows else 0, "seq": seq, "size": len(rows) if cs else 0, "data": sum((pick(r, cs) for r in rows), [])}
    return {"shape": sh(range(d["w"])), "in_idx": ins, "lab_idx": labs, "entry": rows,
            "input": [pick(r, ins) for r in rows], "label": [pick(r, labs) for r in rows],
            "entry_seq": sq(lambda r: r), "input_seq": sq(lambda r: pick(r, ins)), "label_seq": sq(lambda r: pick(r, labs)),
            "inputs": sh(ins), "labels": sh(labs)}


def check(o, a, b, got):
    """why the code's answer differs from the specification's, or None"""
    if o["bad"]:
        return None if got == {"ex": "error"} else "should be refused, got %s" % (got,)
    if o["op"] == "split":
        if not isinstance(got, list):
            return "expected two data sets, got %s" % (got,)
        for e, g, n in ((o["l"], got[0], "first part"), (o["r"], got[1], "second part")):
            w = data.differs_shape(e, g, U)
            if w:
                return n + ": " + w
        got = got[2]
    return data.differs(dump_of(b), got, U)


def run(ctx):
    b = core.build("h_data")
    T = ctx.thorough
    rnd = random.Random(ctx.seed)
    v = lambda n, w, f: [[f(r, c) for c in range(w)] for r in range(n)]
    distinct = lambda r, c: 4 * r - 2 * c
    dup = lambda r, c: [1, 3, 1, 5][r % 4] if c % 2 == 0 else 7
    starts = {
        "rows of two with one label": [mk(2, 1, [1], v(4, 2, distinct)), mk(2, 1, [0], v(3, 2, dup))],
        "sequences of two": [mk(2, 2, [1], v(4, 2, distinct)), mk(1, 2, [], v(4, 1, distinct))],
        "three columns": [mk(3, 1, [0, 2], v(2, 3, distinct)), mk(3, 2, [1], v(2, 3, dup))],
        "small and empty": [mk(1, 1, [0], [[3]]), mk(0, 0, [], []), mk(2, 3, [], v(3, 2, dup))],
    }
    if T:
        starts["more rows"] = [mk(1, 1, [], v(5, 1, distinct)), mk(2, 3, [0], v(6, 2, dup)), mk(2, 1, [0, 1], v(5, 2, distinct))]
    others = [mk(2, 1, [1], [[9, 8]]), mk(2, 2, [1], [[9, 8], [7, 6]]), mk(1, 1, [], [[5], [6]]), mk(0, 0, [], []), mk(2, 1, [0], [[1, 2], [3, 4]])]
    depth = 3 if T else 2
    td = lambda d: tla_ds(d["w"], d["seq"], d["labs"], d["rows"])
    for name, ss in starts.items():
        r = core.tlc("DataOps", "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Small\nINVARIANT Inv\nPROPERTY Laws\nACTION_CONSTRAINT Emit\n",
                     coverage=True, heap="10g", defs=dict(
                         U=U, Starts="{%s}" % ",".join(map(td, ss)), Others="<<%s>>" % ",".join(map(td, others)),
                         Eighths="{-1,0,1,3,4,6,7,8,9}", Ranges="{<<0,%d>>,<<%d,%d>>,<<%d,%d>>,<<%d,%d>>}" % (4 * U, -U, U, U, U, 3 * U, 2 * U),
                         LabSets="{{},{0},{1},{0,1},{2,9}}", SeqSizes="0..4", MaxRows=6, MaxWidth=4, Depth=depth, Shuffles="TRUE"))
        ctx.count_tlc(r, name)
        g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
        del r.prints
        cases, walks = [], []
        for s0, steps in g.walks(rnd, 60):
            c = [build_cmd(j + 1, o) for j, o in enumerate(others)] + [build_cmd(0, g.states[s0], U)]
            c += [op_cmd(o, g.states[t]) for s, o, t in steps]
            cases.append(c)
            walks.append((s0, steps))
        skip = len(others) + 1
        ok = 0
        for c, (s0, steps), got in zip(cases, walks, core.run_cases(b, cases)):
            if got is None:
                continue
            ok += 1
            why = data.differs(dump_of(g.states[s0]), got[skip - 1], U)
            at = skip - 1
            if not why:
                for i, ((s, o, t), x) in enumerate(zip(steps, got[skip:])):
                    why = check(o, g.states[s], g.states[t], x)
                    at = skip + i
                    if why:
                        break
            if why:
                ctx.violation("after %s: %s: %s" % (c[max(0, at - 2):at], c[at], why),
                              {"harness": "h_data", "commands": c[:at + 1], "expected": why})
        ctx.traces(ok)
        ctx.sample({"walk": cases[0][skip - 1:skip + 5]})
        ctx.log(name, r.distinct, "states", g.n, "transitions", len(cases), "walks")
