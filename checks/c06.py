"""C06: CSV rows do not depend on how they are reached.  TLC explores the cursor
states of CsvCursor.tla; walks over all transitions are replayed on real files."""
import random
from vlib import core, tour

CFG = ("SPECIFICATION Spec\nVIEW View\nINVARIANTS StreamInStep Distance\nPROPERTIES RowIsLine IndexIsLine\n"
       "ACTION_CONSTRAINT Emit\n")


def files(n, rnd):
    """files of n lines: (lines, final newline)"""
    def nums(i):
        return "%d,%s,%d" % (10 * i + 1, ["0.5", "-2", "7e2"][i % 3], i)
    plain = ["a,b,c"] + [nums(i) for i in range(1, n)]
    yield plain[:n], True
    yield plain[:n], False
    same = ["a,b,c"] + ["1,2,3"] * n
    yield same[:n], True
    holes = ["a,b,c"] + [["", "5,,6", ",,", "1"][i % 4] for i in range(n)]
    lines = holes[:n]
    yield lines, True
    if lines[-1] != "":
        yield lines, False
    wide = ["h" * 300 + ",b,c"] + ["%d,%s,1" % (i, "9" * (1 + 40 * i)) for i in range(n)]
    yield wide[:n], False
    while True:
        ls = [",".join(rnd.choice(["", "1", "2.5", "x", "true"]) for _ in range(3)) for _ in range(n)]
        yield ls, rnd.random() < 0.5


def num(f):
    try:
        return core.num(float(f))
    except ValueError:
        return None


def fields(line, cols):
    f = line.split(",")[:cols]
    return f + [""] * (cols - len(f))


class Expect:
    def __init__(self, lines, nl):
        self.l, self.cols = lines, lines[0].count(",") + 1

    def row(self, i):
        return [i, self.l[i], fields(self.l[i], self.cols)]

    def of(self, o):
        n = o["op"]
        if n in ("index", "deref"):
            return self.row(o["r"])
        if n == "entry":
            return [0 if f == "" else num(f) for f in fields(self.l[o["r"]], self.cols)]
        if n == "eq":
            return o["r"] == 1
        if n == "header":
            return self.row(0)
        if n == "lines":
            return self.l
        if n == "rowsvec":
            return [self.row(i) for i in range(len(self.l))]
        if n == "foreach":
            return [self.row(i) for i in range(1, len(self.l))]
        if n == "amounts":
            return [len(self.l), self.cols, len(self.l) - 1, self.cols]
        return True


def agree(e, g):
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(agree(x, y) for x, y in zip(e, g))
    return e is None or e == g and isinstance(e, bool) == isinstance(g, bool)


def run(ctx):
    b = core.build("h_csv")
    rnd = random.Random(ctx.seed)
    for n in range(1, 7 if ctx.thorough else 5):
        names = '{"A","B"}' if n < 5 else '{"A"}'
        r = core.tlc("CsvCursor", CFG, coverage=True, defs=dict(N=n, Names=names, MaxIdx=2 * n + 1))
        ctx.count_tlc(r, "%d lines" % n)
        g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
        start = r.prints[0]["a"]
        ctx.log("%d lines: %d states, %d transitions" % (n, r.distinct, g.n))
        cases, meta = [], []
        fs = files(n, rnd)
        nf = 12 if ctx.thorough else 6
        flist = [next(fs) for _ in range(nf)]
        walks = list(g.walks(rnd, maxlen=250, anywhere=False, start=start))
        for k, (s0, steps) in enumerate(walks):
            # a few walks on every file, every walk on at least one
            for f in (flist if k < 3 else [flist[(k + j) % nf] for j in range(3 if ctx.thorough else 2)]):
                lines, nl = f
                text = "\n".join(lines) + ("\n" if nl else "")
                cases.append(["file " + core.hx(text), "open %s 1 AUTO 0" % core.hx(",")]
                             + ["%s %s" % (o["op"], " ".join(str(x) for x in o["a"])) for _, o, _ in steps])
                meta.append((f, steps))
        for c, (f, steps), got in zip(cases, meta, core.run_cases(b, cases)):
            if got is None:
                continue
            ex = Expect(*f)
            for i, ((_, o, _), x) in enumerate(zip(steps, got[2:])):
                e = ex.of(o)
                if not agree(e, x):
                    ctx.violation("file %r%s, %s(%s) after %d accesses: expected %s, code gives %s" % (
                        f[0], "" if f[1] else " without final newline", o["op"], o["a"], i, e, x),
                        {"harness": "h_csv", "commands": c[:i + 3], "expected": e})
                    break
        ctx.traces(len(cases))
        ctx.cov["longest_walk"] = max(ctx.cov.get("longest_walk", 0), max(len(s) for _, s in walks))
        ctx.sample({"file": flist[0][0], "walk": cases[0][2:8]})
    # a file without any line
    cases = [["file x", "open x2c 1 AUTO 0", "amounts", "lines", "foreach", "index 0", "entry 0"], ["nofile"]]
    got = core.run_cases(b, cases)
    want = [[True, True, [0, 1, 0, 1], [], [], {"ex": "error"}, {"ex": "error"}], [{"ex": "error"}]]
    for c, e, g in zip(cases, want, got):
        for i, (x, y) in enumerate(zip(e, g)):
            if x != y:
                ctx.violation("empty or missing file, %s: expected %s, code gives %s" % (c[i], x, y),
                              {"harness": "h_csv", "commands": c[:i + 1], "expected": x})
    ctx.traces(2)
    ctx.assumptions.append("iterators are not dereferenced outside the file")
