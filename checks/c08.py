"""C08: label encoding.  Every table and label choice of OneHot.tla is encoded
by the code, as a data set parser of its own and as a CSV file."""
import random
from vlib import core

# order-preserving number spellings of the model's values 0,1,2,3
SCALES = [["0", "1", "2", "3"], ["-5", "0", "0.5", "7"], ["-3.25", "-1", "1e3", "1e9"], ["2", "10", "33", "100"]]


def run(ctx):
    b = core.build("h_csv")
    rnd = random.Random(ctx.seed)
    T = ctx.thorough
    cases, exps, what = [], [], []
    for name, mr, mc, vals in (("tall", 4 if T else 3, 2, "{0,1,2}"), ("wide", 2, 4 if T else 3, "{0,1}" if not T else "{0,1,2}"),
                               ("four columns", 3 if T else 2, 4, "{0,1}"), ("column", 6 if T else 5, 1, "{0,1,2,3}" if T else "{0,1,2}")):
        if T and name == "wide":
            mc = 3
        r = core.tlc("OneHot", "SPECIFICATION Spec\nINVARIANTS Widths OneOne Faithful Emit\n", coverage=True,
                     defs=dict(MaxRows=mr, MaxCols=mc, Values=vals))
        ctx.count_tlc(r, name)
        ctx.log(name, r.distinct, "states %.1fs" % r.wall)
        for p in r.prints:
            sc = rnd.choice(SCALES)
            rows = [[sc[v] for v in row] for row in p["r"]]
            w, nl = p["w"], p["n"]
            nf = p["c"] - len(p["l"])
            feats = [[row[j] for j in range(p["c"]) if j not in p["l"]] for row in rows]
            enc = []
            for i in range(len(rows)):
                e = p["e"][i * w:(i + 1) * w]
                enc += [core.num(x) for x in feats[i]] + e[nf:]
            flat = [core.num(x) for row in rows for x in row]
            exp = {"one": {"d": enc, "l": nl, "w": w}, "def": {"d": flat, "l": p["l"], "w": p["c"]}, "again": True}
            lab = "%d %s" % (len(p["l"]), " ".join(map(str, p["l"])))
            cases.append(["enc %d %d %s %s" % (len(rows), p["c"], " ".join(x for row in rows for x in row), lab)])
            exps.append(exp)
            what.append((rows, p["l"]))
            if rnd.random() < 0.3:
                text = ",".join("h%d" % j for j in range(p["c"])) + "\n" + "\n".join(",".join(row) for row in rows)
                cases.append(["file " + core.hx(text + (rnd.choice(["", "\n"]) if rows else "")), "open x2c 1 AUTO " + lab, "index 1", "enccsv"])
                exps.append(exp)
                what.append((rows, p["l"]))
    for c, e, w, got in zip(cases, exps, what, core.run_cases(b, cases)):
        if got is None:
            continue
        if e != got[-1]:
            ctx.violation("rows %s labels %s: expected %s, code gives %s" % (w[0], w[1], e, got[-1]),
                          {"harness": "h_csv", "commands": c, "expected": e})
    ctx.traces(len(cases))
    k = len(what) * 2 // 3
    ctx.sample({"rows": what[k][0], "labels": what[k][1], "encoded": exps[k]["one"]})
    ctx.assumptions.append("label columns lie inside the table; values are finite numbers")
