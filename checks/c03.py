"""C03: JSON documents survive writing and reading back.  Every document the
reader automaton of JsonText.tla accepts is built through the interface, written
and read back; the model's own text of it is read too."""
import random, struct
from vlib import core, jsontext as J


def run(ctx):
    b = core.build("h_json")
    rnd = random.Random(ctx.seed)
    docs = [p for p in J.model(ctx, "wide", 1, 1, 2, 13 if ctx.thorough else 11, 5, False) if p["s"] == "done"]
    small = [p for p in J.model(ctx, "leaves", 2, 2, 2, 10 if ctx.thorough else 8, 3, False) if p["s"] == "done"]
    one = [p for p in J.model(ctx, "one", 1, 1, 1, 5, 3, False) if p["s"] == "done"]
    ctx.cov["documents"] = len(docs) + len(small)
    cmds, exp = [], []

    def add(cmd, kind, e, what):
        cmds.append([cmd]); exp.append((kind, e, what))

    def roundtrip(p, sp, variants=(0, 1, 2)):
        for v in variants:
            add("rt %d %s" % (v, " ".join(sp.build(p["v"]))), "rt", sp.expect(p["v"]), sp.text(p["t"]))
        t = sp.text(p["t"])
        if p["v"]["k"] == "leaf":
            add("read " + core.hx(t), "read", (sp.expect(p["v"], True), ""), t)
        else:       # a container ends at its bracket, whatever follows
            for tail in ("", "\n", "[", "7", "}"):
                add("read " + core.hx(t + tail), "read", (sp.expect(p["v"], True), tail), t + tail)
    for p in docs:
        roundtrip(p, J.random_spelling(rnd), (0,) if not ctx.thorough else (0, 1, 2))
    for p in small:
        for _ in range(3 if ctx.thorough else 1):
            roundtrip(p, J.random_spelling(rnd))
    # every spelling of string, scalar and key in every position of the small documents
    for p in one:
        for s in J.STRINGS:
            roundtrip(p, J.Spelling({"s1": s}, {"b1": rnd.choice(J.SCALARS)}, {"k1": rnd.choice(J.KEYS)}), (1,))
        for s in J.SCALARS:
            roundtrip(p, J.Spelling({"s1": rnd.choice(J.STRINGS)}, {"b1": s}, {"k1": rnd.choice(J.KEYS)}), (1,))
        for s in J.KEYS:
            roundtrip(p, J.Spelling({"s1": rnd.choice(J.STRINGS)}, {"b1": rnd.choice(J.SCALARS)}, {"k1": s}), (1,))
    # documents one after another on one stream
    cont = [p for p in docs + small if p["v"]["k"] != "leaf"]
    for i in range(6000 if ctx.thorough else 2500):
        n = rnd.choice((2, 2, 3, 4))
        sp = J.random_spelling(rnd)
        ps = [rnd.choice(cont) for _ in range(n)]
        sep = rnd.choice(("", ","))
        add("seq %s %d %s" % (core.hx(sep), n, " ".join(" ".join(sp.build(p["v"])) for p in ps)), "seq",
            [sp.expect(p["v"]) for p in ps], [sp.text(p["t"]) for p in ps])
    # long lists, wide dictionaries, deep documents
    for n in (50, 500):
        add("rt 1 A %d %s" % (n, " ".join("Ki %s" % core.hx(str(i)) for i in range(n))), "rt",
            {"s": [{"v": str(i), "y": "INT"} for i in range(n)]}, "list of %d" % n)
        add("rt 1 D %d %s" % (n, " ".join("%s Ki %s" % (core.hx("k%d" % i), core.hx(str(i))) for i in range(n))), "rt",
            {"d": {"k%d" % i: {"v": str(i), "y": "INT"} for i in range(n)}}, "dict of %d" % n)
    for n in (60, 300):
        e = {"s": []}
        for _ in range(n):
            e = {"s": [e]}
        add("rt 1 " + "A 1 " * n + "A 0", "rt", e, "depth %d" % n)
    # every character and every pair of structural characters, at every place of a string and of a key
    texts = [[t for t in (c, "a" + c, c + "a", "a" + c + "b", c + c, "0" + c, c + "0")]
             for c in map(chr, range(1, 256)) if c != '"']
    marks = "[]{},: \t\n\r\\'/.-+eE0tn"
    texts += [[x + y for y in marks] for x in marks] + [["ab" + x + y + "c" for y in marks] for x in marks]
    texts += [["x" * n, " " * n, "," * n] for n in (15, 16, 17, 255, 256, 4096)]
    for ts in texts:
        add("rt 1 A %d %s" % (len(ts), " ".join("KS %s" % core.hx(t) for t in ts)), "rt",
            {"s": [{"v": t, "y": "STRING"} for t in ts]}, "strings %r" % (ts,))
        add("rt 1 D %d %s" % (len(ts), " ".join("%s KS %s" % (core.hx(t), core.hx(t)) for t in ts)), "rt",
            {"d": {t: {"v": t, "y": "STRING"} for t in ts}}, "keys %r" % (ts,))
        add("rt 1 A 2 D 1 %s A 1 Ki %s D 1 %s D 0" % (core.hx(ts[0]), core.hx("1"), core.hx(ts[-1])), "rt",
            {"s": [{"d": {ts[0]: {"s": [{"v": "1", "y": "INT"}]}}}, {"d": {ts[-1]: {"d": {}}}}]}, "keys of containers %r" % (ts,))
    # doubles
    pats = [0, 1 << 63, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000,
            0x3ff0000000000001, 0x3fefffffffffffff, 0x4340000000000000, 0x4340000000000001, 0x3eb0c6f7a0b5ed8d]
    while len(pats) < (60000 if ctx.thorough else 12000):
        x = rnd.getrandbits(64)
        if (x >> 52) & 0x7ff != 0x7ff:
            pats.append(x)
        pats.append(struct.unpack("<Q", struct.pack("<d", rnd.uniform(-2, 2)))[0])
        pats.append(struct.unpack("<Q", struct.pack("<d", rnd.randrange(10**7) / 10.0 ** rnd.randrange(0, 12)))[0])
    for i in range(0, len(pats), 200):
        ch = pats[i:i + 200]
        add("dbl %d %s" % (len(ch), " ".join("%x" % x for x in ch)), "dbl", len(ch), "doubles")
    # typed lists and dictionaries
    tv = {"i": ["0", "-2147483648", "2147483647"], "u": ["0", "4294967295"], "l": ["-9223372036854775808", "5"],
          "m": ["18446744073709551615"], "x": ["-1", "9223372036854775807"], "y": ["18446744073709551615", "0"],
          "d": ["0.1", "-3", "1e300", "1e-300", "0.3333333333333333"], "b": ["true", "false", "true"], "s": ["a", "", "b]", "x y"]}
    for k, v in tv.items():
        for n in range(len(v) + 1):
            add("vecs %s %d %s" % (k, n, " ".join(core.hx(x) for x in v[:n])), "vecs", n, "typed %s %s" % (k, v[:n]))
    # quotation marks are not escaped: known finding
    for fid, build, e in (("quote-in-string", "A 1 KS " + core.hx('a"b'), {"s": [{"v": 'a"b', "y": "STRING"}]}),
                          ("quote-in-key", "D 1 %s Ki %s" % (core.hx('a"b'), core.hx("7")), {"d": {'a"b': {"v": "7", "y": "INT"}}})):
        add("rt 0 " + build, "rt", e, fid)

    res = core.run_cases(b, cmds)
    for c, (kind, e, what), got in zip(cmds, exp, res):
        if got is None:
            continue
        g = got[0]
        ok = False
        if kind == "rt":
            ok = isinstance(g, dict) and "a" in g and J.same(e, g["a"]) and J.same(e, g["b"]) and g["eq"] is True \
                and g["num"] is True and g["fail"] is False and g["rest"] == "" and g["str"] is True \
                and _texts(g["a"]) == _texts(g["b"])
        elif kind == "read":
            ok = isinstance(g, dict) and "v" in g and J.same(e[0], g["v"]) and g["fail"] is False and g["rest"] == e[1]
        elif kind == "seq":
            ok = isinstance(g, list) and len(g) == len(e) + 1 and g[-1] == "" and all(J.same(x, y) for x, y in zip(e, g))
        elif kind == "dbl":
            ok = g == {"bad": [], "n": e}
        elif kind == "vecs":
            ok = isinstance(g, dict) and g.get("ok") is True and len(g["l"]["s"]) == e and len(g["d"]["d"]) == e
        if not ok:
            if isinstance(what, str) and ctx.is_known(what):
                ctx.known_hit(what)
                continue
            ctx.violation("%s: expected %s, code gives %s" % (what, str(e)[:300], str(g)[:300]),
                          {"harness": "h_json", "commands": c, "expected": e})
    ctx.traces(len(cmds))
    for p in docs[len(docs) // 2:len(docs) // 2 + 3]:
        ctx.sample({"document": J.random_spelling(rnd).text(p["t"])})
    ctx.assumptions.append("documents are exhaustive up to the token bound with leaf kinds spelled from fixed tables; doubles are sampled bit patterns")


def _texts(d):
    """leaf texts in order (types may differ for the empty text only)"""
    if isinstance(d, dict) and "v" in d:
        return [d["v"]]
    if isinstance(d, dict) and "s" in d:
        return [_texts(x) for x in d["s"]]
    if isinstance(d, dict) and "d" in d:
        return sorted((k, str(_texts(x))) for k, x in d["d"].items())
    return d
