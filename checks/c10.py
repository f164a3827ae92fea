"""C10: CIFAR records.  RecordFile.tla for both record layouts and pixel orders,
replayed on generated files."""
import random
from vlib import core, tour, binfile as B

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTY HistoryFree\nACTION_CONSTRAINT Emit\n"
SIZE = 10000


def reorder(img):
    """planes -> pixels"""
    out = bytearray(3072)
    out[0::3], out[1::3], out[2::3] = img[:1024], img[1024:2048], img[2048:]
    return bytes(out)


def run(ctx):
    b = core.build("h_bin")
    rnd = random.Random(ctx.seed)
    T = ctx.thorough
    names = ["plane\ncar\n", "a\n\nb", "", "x", "\n\none\ntwo\n\n"]
    for lab in (1, 2):
        rec = lab + 3072
        # units present: the model's record is lab + 2 units
        for nrec, extra in [(3, 0), (2, 1), (1, lab + 1), (0, 0), (2, lab)] + ([(4, 0), (3, 1), (5, lab + 1)] if T else []):
            units = nrec * (lab + 2) + extra
            idx = sorted({0, 1, 2, 3, 4, nrec, SIZE, SIZE + 1, 2 * SIZE + 2, SIZE - 1})
            r = core.tlc("RecordFile", small=not ctx.thorough, cfg=CFG, coverage=True, defs=dict(Kind='"cifar"', Lab=lab, Count=SIZE, LenI=units, LenL=0,
                                                                    Idx="{%s}" % ",".join(map(str, idx))))
            ctx.count_tlc(r, "label of %d bytes, %d records and %d units" % (lab, nrec, extra))
            g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
            xb = [0, 1, lab, lab + 1536][extra] if lab == 1 else [0, 1, 2, 2 + 1536][extra]
            if extra == lab and lab == 1:
                xb = 1
            for order in (0, 1):
                for fine in ((0, 1) if lab == 1 else (1,)):
                    seed = rnd.randrange(256)
                    n1, n2 = rnd.choice(names), rnd.choice(names)
                    data = B.payload(nrec * rec + xb, seed)
                    opens = ["gen %s x %d %d" % (core.hx("a.bin"), len(data), seed), "text %s %s" % (core.hx("n1"), core.hx(n1)),
                             "text %s %s" % (core.hx("n2"), core.hx(n2)),
                             "copen %s %s %s %d %d" % (core.hx("a.bin"), core.hx("n1"), core.hx("n2") if fine else "x", order, 100 if lab == 2 else 10)]
                    memo = {}

                    def expect(o):
                        k = o["i"] % SIZE
                        if k not in memo:
                            img = B.at(data, k * rec + lab, 3072)
                            memo[k] = (B.crc(reorder(img) if order else img), list(B.at(data, k * rec, lab)))
                        i, l = memo[k]
                        return {"image": i, "label": l, "item": [i, l], "entry": [i, l[-1]]}[o["op"]]
                    c = B.walk_check(ctx, b, g, r.prints[0]["a"], rnd, opens, expect, lambda o: "%s %d" % (o["op"], o["i"]), 60)
                    lines = lambda s: [x for x in s.split("\n") if x]
                    e = [lines(n1), lines(n2) if lab == 2 else [], [SIZE, SIZE, 3073] + ([32, 32, 3] if order else [3, 32, 32]) + [1, 3072]]
                    got = core.run_cases(b, [opens + ["cinfo"]])[0][-1]
                    if got != e:
                        ctx.violation("description: expected %s, code gives %s" % (e, got), {"harness": "h_bin", "commands": opens + ["cinfo"], "expected": e})
            ctx.log("label %d, %d records + %d: %d states, %d transitions, %d walks" % (lab, nrec, extra, r.distinct, g.n, len(c)))
        ctx.sample({"walk": c[0][4:10]})
    # ---- printing
    jobs = []
    for k in range(6 if not T else 30):
        seed, short, lab = rnd.randrange(256), rnd.choice([0, 0, 900]), 1 + k % 2
        data = B.payload((3072 + lab) * 2 - short, seed)
        opens = ["gen %s x %d %d" % (core.hx("a.bin"), len(data), seed), "text %s %s" % (core.hx("n1"), core.hx("a")), "text %s %s" % (core.hx("n2"), core.hx("b")),
                 "copen %s %s %s %d %d" % (core.hx("a.bin"), core.hx("n1"), core.hx("n2"), k // 2 % 2, 100 if lab == 2 else 10)]
        i = B.at(data, k % 2 * (3072 + lab) + lab, 3072)
        jobs.append((opens, k % 2, [21 * i[p] + 72 * i[1024 + p] + 7 * i[2048 + p] for p in range(1024)], 32))
    B.pictures(ctx, b, jobs)
    ctx.assumptions.append("bytes missing behind the end of a short file are read as zero, as an untouched buffer")
