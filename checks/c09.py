"""C09: MNIST files.  Header validation (MnistOpen.tla) and access independent
of history (RecordFile.tla), replayed on generated files."""
import random, struct
from vlib import core, tour, binfile as B

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTY HistoryFree\nACTION_CONSTRAINT Emit\n"
IMG, LBL = 0x803, 0x801


def run(ctx):
    b = core.build("h_bin")
    rnd = random.Random(ctx.seed)
    T = ctx.thorough
    # ---- opening
    r = core.tlc("MnistOpen", "SPECIFICATION Spec\nINVARIANTS Exactly Emit\n", coverage=True, defs=dict(
        Magics='{"img","lbl","swap"}', Counts="{0,2,3}" if not T else "{0,2,3,258}", Sides="{28,27}" if not T else "{28,27,7168}",
        ImgLens="{0,3,7,11,12,15,16,800,99}", LblLens="{0,3,4,7,8,10,99}"))
    ctx.count_tlc(r, "opening")
    ctx.log("opening:", r.distinct, "states", len(r.prints), "pairs of files")
    magic = {"img": IMG, "lbl": LBL}
    cases, exps = [], []
    for p in r.prints:
        f = p["f"]
        bad = lambda good: rnd.choice([struct.unpack("<I", struct.pack(">I", good))[0], 0, good + 1, good | 1 << 24, good ^ 1 << 16, 0xffffffff])
        ih = struct.pack(">IIII", magic.get(f["im"], bad(IMG)), f["ic"], f["rows"], f["cols"])
        lh = struct.pack(">II", magic.get(f["lm"], bad(LBL)), f["lc"])
        c = []
        if f["il"] != 99:
            c.append("gen %s %s %d 5" % (core.hx("a.bin"), core.hx(ih[:f["il"]].decode("latin-1")), max(0, f["il"] - 16)))
        if f["ll"] != 99:
            c.append("gen %s %s %d 9" % (core.hx("b.bin"), core.hx(lh[:f["ll"]].decode("latin-1")), max(0, f["ll"] - 8)))
        c.append("mopen %s %s" % (core.hx("a.bin" if f["il"] != 99 else "no.bin"), core.hx("b.bin" if f["ll"] != 99 else "no.bin")))
        e = [True] * (len(c) - 1)
        if p["v"] == "open":
            c.append("minfo")
            e += [True, [f["ic"], f["ic"], 785, 28, 28, 28, 28, 28, 1, 784]]
        else:
            e += [{"ex": "error"}]
        cases.append(c)
        exps.append(e)
    # single wrong bits and bytes of otherwise right headers
    gi, gl = struct.pack(">IIII", IMG, 2, 28, 28), struct.pack(">II", LBL, 2)
    for which, good in ((0, gi), (1, gl)):
        for bit in range(8 * len(good)):
            h = bytearray(good)
            h[bit // 8] ^= 1 << bit % 8
            ih, lh = (bytes(h), gl) if which == 0 else (gi, bytes(h))
            cases.append(["gen %s %s 1568 1" % (core.hx("a.bin"), core.hx(ih.decode("latin-1"))),
                          "gen %s %s 2 1" % (core.hx("b.bin"), core.hx(lh.decode("latin-1"))),
                          "mopen %s %s" % (core.hx("a.bin"), core.hx("b.bin"))])
            exps.append([True, True, {"ex": "error"}])
    for c, e, got in zip(cases, exps, core.run_cases(b, cases)):
        if got is not None and got != e:
            ctx.violation("opening: expected %s, code gives %s" % (e, got), {"harness": "h_bin", "commands": c, "expected": e})
    ctx.traces(len(cases))
    # ---- access
    full = []
    for count, li, ll in ([(3, 6, 3), (3, 5, 2), (3, 3, 1), (1, 2, 1), (2, 0, 0), (0, 0, 0), (4, 8, 4)] + ([(5, 7, 5), (6, 12, 4), (7, 14, 7)] if T else [])):
        idx = sorted({0, 1, 2, count - 1 if count else 0, count, 2 * count, count + 1, 5})
        r = core.tlc("RecordFile", small=not ctx.thorough, cfg=CFG, coverage=True, defs=dict(Kind='"mnist"', Lab=1, Count=count, LenI=li, LenL=ll,
                                                                Idx="{%s}" % ",".join(map(str, idx))))
        ctx.count_tlc(r, "%d images, %d half images and %d labels present" % (count, li, ll))
        g = tour.Graph((p["a"], p["o"], p["b"]) for p in r.prints)
        # half images of 392 bytes; a file may end anywhere inside a half that is missing
        seed, cut = rnd.randrange(256), rnd.choice([0, 0, 1, 391])
        img, lbl = B.payload(li * 392 + (cut if li < 2 * count else 0), seed), B.payload(ll, seed + 3)
        opens = ["gen %s %s %d %d" % (core.hx("a.bin"), core.hx(struct.pack(">IIII", IMG, count, 28, 28).decode("latin-1")), len(img), seed),
                 "gen %s %s %d %d" % (core.hx("b.bin"), core.hx(struct.pack(">II", LBL, count).decode("latin-1")), len(lbl), seed + 3),
                 "mopen %s %s" % (core.hx("a.bin"), core.hx("b.bin"))]

        def expect(o):
            if count == 0:
                return {"ex": "error"}
            k = o["i"] % count
            i, l = B.crc(B.at(img, k * 784, 784)), B.at(lbl, k, 1)[0]
            return {"image": i, "label": [l], "item": [i, [l]], "entry": [i, l]}[o["op"]]
        if not g.n:
            continue
        c = B.walk_check(ctx, b, g, r.prints[0]["a"], rnd, opens, expect, lambda o: "%s %d" % (o["op"], o["i"]), 120)
        ctx.log("%d images: %d states, %d transitions, %d walks" % (count, r.distinct, g.n, len(c)))
        ctx.sample({"walk": c[0][3:9]})
    # ---- printing
    jobs = []
    for k in range(6 if not T else 30):
        seed, count, short = rnd.randrange(256), 3, rnd.choice([0, 0, 500])
        data = B.payload(784 * count - short, seed)
        opens = ["gen %s %s %d %d" % (core.hx("a.bin"), core.hx(struct.pack(">IIII", IMG, count, 28, 28).decode("latin-1")), len(data), seed),
                 "gen %s %s %d 1" % (core.hx("b.bin"), core.hx(struct.pack(">II", LBL, count).decode("latin-1")), count),
                 "mopen %s %s" % (core.hx("a.bin"), core.hx("b.bin"))]
        jobs.append((opens, k % count, [100 * v for v in B.at(data, k % count * 784, 784)], 28))
    B.pictures(ctx, b, jobs)
    ctx.assumptions.append("bytes missing behind the end of a short file are read as zero, as an untouched buffer")
