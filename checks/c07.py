"""C07: shape, types and field values of CSV files.  Every file the reader
specification CsvShape.tla explores is written out and opened by the code."""
import random
from vlib import core

# ids of the model: text, type, double, int, bool (None: not compared)
F = {"i": [("1", "INT"), ("-7", "INT"), ("0", "INT"), ("123456", "INT"), ("+3", "INT")],
     "f": [("1.5", "FLOAT"), ("-0.25", "FLOAT"), ("2e3", "FLOAT"), (".5", "FLOAT"), ("007", "FLOAT")],
     "b": [("true", "BOOL"), ("false", "BOOL")],
     "s": [("x", "STRING"), ("\"q\"", "STRING"), ("a b", "STRING"), ("1x", "STRING"), (" 1", "STRING"), ("True", "STRING")]}


def dbl(t):
    try:
        return core.num(float(t[0])) if t[1] in ("INT", "FLOAT") else 0 if t[1] == "NONE" else None
    except ValueError:
        return None


def integer(t):
    return int(t[0]) if t[1] == "INT" else 0 if t[1] == "NONE" else None


def boolean(t):
    return {"true": 1, "false": 0}.get(t[0]) if t[1] == "BOOL" else 0 if t[1] == "NONE" else None


NONE = ("", "NONE")


def row_exp(line, idx, cols, types, sep):
    """line: list of (text, type)"""
    pad = (line + [NONE] * cols)[:cols]
    f = []
    for j in range(cols + 2):
        f.append([line[j][0], types[j], j] if j < min(cols, len(line)) else {"ex": "error"})
    return {"n": cols, "idx": idx, "line": sep.join(t[0] for t in line), "f": f,
            "g": [[t[0], types[j], j] for j, t in enumerate(pad)], "s": [t[0] for t in pad],
            "d": [dbl(t) for t in pad], "i": [integer(t) for t in pad], "b": [boolean(t) for t in pad], "t": types}


def agree(e, g):
    if e is None:
        return True
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(agree(x, y) for x, y in zip(e, g))
    if isinstance(e, dict):
        return isinstance(g, dict) and set(e) == set(g) and all(agree(e[k], g[k]) for k in e)
    return e == g


def diff(e, g, at=""):
    if isinstance(e, dict) and isinstance(g, dict):
        for k in e:
            if not agree(e[k], g.get(k)):
                return diff(e[k], g.get(k), at + "." + k)
    if isinstance(e, list) and isinstance(g, list) and len(e) == len(g):
        for i, (x, y) in enumerate(zip(e, g)):
            if not agree(x, y):
                return diff(x, y, at + "[%d]" % i)
    return "%s: expected %s, code gives %s" % (at, str(e)[:300], str(g)[:300])


def run(ctx):
    b = core.build("h_csv")
    rnd = random.Random(ctx.seed)
    T = ctx.thorough
    prints = []
    for name, fs, mt, ml in (("shapes", ["i"], 11 if T else 10, 5), ("kinds", ["i", "f", "b", "s"], 7 if T else 6, 3)):
        r = core.tlc("CsvShape", "SPECIFICATION Spec\nINVARIANTS Lossless Rectangular Emit\n", coverage=True, defs=dict(
            Fields="{%s}" % ",".join('"%s"' % x for x in fs),
            FieldType='[x \\in {"i","f","b","s"} |-> CASE x = "i" -> "INT" [] x = "f" -> "FLOAT" [] x = "b" -> "BOOL" [] OTHER -> "STRING"]',
            MaxTok=mt, MaxLines=ml))
        ctx.count_tlc(r, name)
        ctx.log(name, r.distinct, "states")
        prints += r.prints
    cases, exps, what = [], [], []
    for p in prints:
        lines = [[NONE if f == "" else rnd.choice(F[f]) for f in l] for l in p["l"]]
        sep = rnd.choice([",", ",", ";", "\t", "|"])
        text = "\n".join(sep.join(t[0] for t in l) for l in lines)
        if p["t"] and p["t"][-1] == "nl":
            text += "\n"
        cols = p["c"]
        inferred = list(p["y"])
        assert cols == (len(lines[0]) if lines else 1)
        k = rnd.randrange(5)
        given, types = ["AUTO"], inferred
        if k == 1:
            given = []
        elif k == 2:                      # complete list: taken as it is
            given = [rnd.choice(["INT", "FLOAT", "BOOL", "STRING"]) for _ in range(cols)]
            types = given
        elif k == 3:                      # incomplete list or one with AUTO: inferred
            given = [rnd.choice(["INT", "FLOAT", "STRING"]) for _ in range(rnd.choice([x for x in (1, 2, 3, 4, 5) if x != cols]))]
        elif k == 4:
            given = [rnd.choice(["INT", "FLOAT", "AUTO"]) for _ in range(cols)]
            given[rnd.randrange(cols)] = "AUTO"
        labels = sorted(rnd.sample(range(cols), rnd.randrange(cols + 1)))
        head = lines[0] if lines else [NONE]
        e = {"rows": len(lines), "cols": cols, "entries": max(len(lines) - 1, 0), "features": cols, "types": types,
             "header": row_exp(head, 0, cols, types, sep),
             "all": [row_exp(l, i, cols, types, sep) for i, l in enumerate(lines)]}
        e["mat"] = [x["d"] for x in e["all"]]
        e["vec"] = [y for x in e["all"] for y in x["d"]]
        cases.append(["file " + core.hx(text), "open %s %d %s %d %s" % (core.hx(sep), len(given), " ".join(given), len(labels), " ".join(map(str, labels))), "shape"])
        exps.append(e)
        what.append((text, given))
        # the same lines as free-standing rows
        if lines and rnd.random() < 0.5:
            l = rnd.choice(lines)
            n = len(l)
            c = rnd.choice([0, n, n + 1, max(1, n - 1)])
            m = c or n
            tt = [t[1] for t in (l + [NONE] * m)[:m]]
            gv = rnd.choice([[], ["AUTO"], ["FLOAT"] * m])
            ee = row_exp(l, 3, m, gv if gv == ["FLOAT"] * m else tt, sep)
            cases.append(["row %s %s %d %d %s" % (core.hx(sep.join(t[0] for t in l)), core.hx(sep), c, len(gv), " ".join(gv))])
            exps.append(ee)
            what.append((sep.join(t[0] for t in l), "row of %d columns" % m))
    for c, e, w, got in zip(cases, exps, what, core.run_cases(b, cases)):
        if got is None:
            continue
        if len(got) == 3 and got[:2] != [True, True]:
            ctx.violation("opening %r: %s" % (w, got[:2]), {"harness": "h_csv", "commands": c, "expected": True})
        elif not agree(e, got[-1]):
            ctx.violation("%r%s" % (w, diff(e, got[-1])), {"harness": "h_csv", "commands": c, "expected": e})
    ctx.traces(len(cases))
    for k in (len(what) // 3, len(what) // 2):
        ctx.sample({"file": what[k][0], "types": what[k][1]})
    ctx.assumptions.append("conversions are compared only where the property fixes them: numbers to numbers, booleans to booleans, empty to zero, everything to text")
