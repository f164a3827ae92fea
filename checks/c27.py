"""C27: from files to data sets.  The questions of Pipeline.tla put to readers of
real CSV and MNIST files, in walks over every pair of questions."""
import random
from vlib import core, data, tour
from checks.c12 import dump_of

# spellings of the values 0, 1, 2
SPELL = [["0", "1", "2"], ["0", "1", "2.0"], ["0.0", "1.0", "2e0"], ["-3", "-0.5", "12"], ["-1e-3", "0.25", "1e3"],
         ["-2", "0", "5"], ["-0.5", "0.0", "1e-3"], ["-7", "-1", "0"], ["16777216", "16777217", "16777218"], ["255", "256", "65536"],
         ["2147483647", "2147483648", "4294967296"], ["0.1", "0.100000001", "0.3"], ["-1e300", "1e-300", "1e300"]]
# a value spelled differently in each row is one value
VARIANTS = {"0": ["0", "0.0", "0e5", "00"], "1": ["1", "1.0", "10e-1", "1.00"], "2": ["2", "2.0", "0.2e1", "2e0"]}


def pixels(v):
    return [(v * 29 + o * 37 + (o >> 5) * 5) & 255 for o in range(784)]


def tables(xs):
    return "{%s}" % ",".join("<<%d,{%s},<<%s>>>>" % (c, ",".join(map(str, l)), ",".join("<<%s>>" % ",".join(map(str, r)) for r in rows)) for c, l, rows in xs)


def expected(o, texts, labels, wide):
    """what the reader should answer to o; wide: the first column stands for an image"""
    val = lambda c, v: float(texts[c][v]) if texts else v
    if o["op"] == "copy":
        return True
    ncols = len(texts) if texts else 2
    feats = [c for c in range(ncols) if c not in labels]
    if o["op"] == "entry":
        return (pixels(o["a"][0]) + [o["a"][1]]) if wide else [val(c, v) for c, v in enumerate(o["a"])]
    if o["op"] == "unique":
        if wide:
            return o["a"] if o["c"] == 1 else sorted({pixels(v)[0] for v in o["a"]})
        return [val(o["c"], v) for v in o["a"]]
    d = dict(o["a"])
    if d["rows"]:
        if wide:
            d["rows"] = [pixels(r[0]) + r[1:] for r in d["rows"]]
            d["labs"] = [l + 783 for l in d["labs"]]
            d["w"] += 783
        else:
            cols = list(range(ncols)) if o["enc"] == "def" else feats
            d["rows"] = [[val(cols[j], v) if j < len(cols) else v for j, v in enumerate(r)] for r in d["rows"]]
    return dump_of(d)


def run(ctx):
    b = core.build("h_pipe")
    T = ctx.thorough
    base = dict(MaxRows=3, MaxCols=2, Values="{0,1,2}", Seqs="{0,1,2,5}", Reads="0..2", MaxAsk=40, Tables="{}")
    some = [(2, [1], [[0, 1], [2, 0], [1, 1], [0, 2]]), (3, [0], [[1, 0, 0], [0, 2, 1], [1, 1, 2]]), (3, [0, 2], [[2, 0, 1], [0, 0, 0], [2, 1, 1], [1, 2, 1], [0, 2, 0]]),
            (1, [0], [[2], [0], [2]]), (1, [], [[1], [1]]), (2, [0, 1], [[0, 0], [1, 1], [0, 1]]), (4, [1, 2], [[0, 1, 2, 0], [1, 1, 0, 2]]), (3, [1], []), (2, [1], [[1, 1]])]
    images = [(2, [1], rows) for rows in ([], [[0, 3]], [[1, 9], [2, 0], [1, 9]], [[4, 1], [4, 2], [3, 1], [0, 2], [2, 2]])]
    runs = [("every small table", dict(base, MaxRows=2 if not T else 3, MaxAsk=1), False, 1), ("three columns", dict(base, MaxRows=2, MaxCols=3, Values="{0,1}" if not T else "{0,1,2}", MaxAsk=1, Seqs="{1,2}"), False, 1),
            ("questions in every order", dict(base, Tables=tables(some), Reads="0..4", Seqs="0..5"), False, 60),
            ("images", dict(base, Tables=tables(images), Reads="{0,1,2,4}", Seqs="{1,2}"), True, 12)]

    def one(name, defs, wide, length):
        r = core.tlc("Pipeline", "SPECIFICATION PSpec\nVIEW View\nINVARIANTS Widths Faithful Belong\nACTION_CONSTRAINT PEmit\n", coverage=True, defs=defs)
        ctx.count_tlc(r, name)
        rnd = random.Random(ctx.seed)
        lab = {}
        for p in r.prints:
            lab[str(p["a"][:3])] = p["l"]
        cases, meta = [], []

        def opens(s):
            cols, labels, rows = s[0], lab[str(s[:3])], s[2]
            if wide:
                return ["mnist %s %s" % (data.n([x[0] for x in rows]), data.n([x[1] for x in rows]))], None, labels
            sp = [rnd.choice(SPELL) for _ in range(cols)]
            sep = rnd.choice(",;\t")
            vary = rnd.random() < .5
            cell = lambda c, v: rnd.choice(VARIANTS.get(sp[c][v], [sp[c][v]])) if vary else sp[c][v]
            lines = [sep.join("h%d" % j for j in range(cols))] + [sep.join(cell(c, v) for c, v in enumerate(x)) for x in rows]
            text = "\n".join(lines) + (rnd.choice(["", "\n"]) if rows else "\n")
            typed = cols if vary or rnd.random() < .3 else 0
            return ["csv %s %s %d %s" % (core.hx(text), core.hx(sep), typed, data.n(labels))], sp, labels
        if length == 1:
            by = {}
            for p in r.prints:
                by.setdefault(str(p["a"][:3]), []).append(p)
            for ps in by.values():
                pre, sp, labels = opens(ps[0]["a"])
                rnd.shuffle(ps)
                cases.append(pre + [ask(p["o"]) for p in ps])
                meta.append([(p["o"], sp, labels) for p in ps])
        else:
            g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
            starts = [s for s in g.states if s[4] == "nothing"]
            for s in starts:
                for s0, steps in g.walks(rnd, length, anywhere=False, start=s):
                    pre, sp, labels = opens(s)
                    cases.append(pre + [ask(o, wide) for _, o, _ in steps])
                    meta.append([(o, sp, labels) for _, o, _ in steps])
        done = 0
        for c, m, got in zip(cases, meta, core.run_cases(b, cases, seconds_case=30)):
            if got is None:
                continue
            done += 1
            rep = {"harness": "h_pipe"}
            if got[0] is not True:
                ctx.violation("%s cannot be opened: %s" % (core.show(c[0]), got[0]), dict(rep, commands=c[:1]))
                continue
            for j, ((o, sp, labels), x) in enumerate(zip(m, got[1:])):
                e = expected(o, sp, labels, wide)
                why = data.differs(e, x) if o["op"] == "parse" else None if data.same(e, x) else "expected %s, got %s" % (str(e)[:300], str(x)[:300])
                if why:
                    ctx.violation("%s: %s ; %s: %s" % (name, core.show(c[0])[:400], " ; ".join(c[max(1, j - 2):j + 2]), why[:600]), dict(rep, commands=c[:j + 2]))
                    break
        ctx.traces(done)
        ctx.sample({"walk": [core.show(x) for x in cases[len(cases) // 2][:4]]})
        ctx.log(name, r.distinct, "states", len(r.prints), "transitions", len(cases), "files")
    ctx.each(one, runs)
    ctx.assumptions.append("labels are columns of the file; every row has all its columns and the fields are numbers")


def ask(o, wide=False):
    if o["op"] == "parse":
        return "parse %s %d" % (o["enc"], o["s"])
    return {"entry": "entry %d" % o.get("i", 0), "unique": "unique %d" % (784 if wide and o.get("c") else o.get("c", 0)), "copy": "copy"}[o["op"]]
