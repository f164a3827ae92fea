"""C04: the JSON reader terminates on every text and reports a container that is
cut off.  JsonText.tla says of every explored text whether it is cut off inside
a container; each such text, cut at every character, is read by the code."""
import itertools, random
from vlib import core, jsontext as J


def run(ctx):
    b = core.build("h_json")
    rnd = random.Random(ctx.seed)
    ps = J.model(ctx, "prefixes", 1, 1, 2, 13 if ctx.thorough else 11, 5, False)
    ps2 = J.model(ctx, "malformed", 1, 1, 1, 11 if ctx.thorough else 9, 3, True)
    ps3 = J.model(ctx, "leaves", 2, 2, 2, 9 if ctx.thorough else 8, 3, False)
    n_open = n_err = 0
    seen, must, may = set(), [], []

    def open_text(t, toks):
        if t not in seen:
            seen.add(t); must.append((t, toks))

    def any_text(t):
        if t not in seen:
            seen.add(t); may.append(t)
    for p in ps + ps3 + ps2:
        sp = J.random_spelling(rnd)
        toks = p["t"]
        if p["s"] == "open":
            n_open += 1
            text = sp.text(toks)
            open_text(text, toks)
            # the text may also break off inside its last token, as long as
            # the container was open before that token
            if len(toks) > 1:
                last = sp.token(toks[-1])
                stem = sp.text(toks[:-1])
                for k in range(1, len(last)):
                    open_text(stem + last[:k], toks)
        elif p["s"] == "done" and p["v"]["k"] != "leaf":
            text = sp.text(toks)          # cut inside the final tokens too
            open_text(text[:-1], toks[:-1])
        elif p["s"] == "err":
            n_err += 1
            any_text(sp.text(toks))
            if rnd.random() < 0.2:
                any_text(sp.text(toks) + rnd.choice(["]", "}", "]]}", ",", "\"", "\n"]))
    ctx.cov["texts_cut_off"], ctx.cov["texts_malformed"] = len(must), 0
    # every short text over the structural characters
    alpha = '[]{}",:1'
    for n in range(0, (7 if ctx.thorough else 6)):
        for t in itertools.product(alpha, repeat=n):
            any_text("".join(t))
    # mutations of well-formed documents
    done = [p for p in ps + ps3 if p["s"] == "done" and len(p["t"]) > 4]
    for _ in range(60000 if ctx.thorough else 12000):
        t = list(J.random_spelling(rnd).text(rnd.choice(done)["t"]))
        for _ in range(rnd.randrange(1, 4)):
            k, i = rnd.randrange(4), rnd.randrange(len(t) or 1)
            if k == 0 and t:
                del t[i]
            elif k == 1:
                t.insert(i, rnd.choice('[]{}",:1ae.-+ \n\t\\\x00\xff'))
            elif k == 2 and t:
                t[i] = rnd.choice('[]{}",:1ae.-+ \n\t\\\x00\xff')
            elif t:
                j = rnd.randrange(len(t)); t[i], t[j] = t[j], t[i]
        any_text("".join(t))
    ctx.cov["texts_malformed"] = len(may)
    allt = [(t, True) for t, _ in must] + [(t, False) for t in may]
    rnd.shuffle(allt)
    cases, meta = [], []
    for i in range(0, len(allt), 40):
        ch = allt[i:i + 40]
        cases.append(["read " + core.hx(t) for t, _ in ch])
        meta.append(ch)
    # documents far larger than any model
    longs = [("unclosed list", "[", "1,", 30000, "1", "error"), ("unclosed dictionary", "{\"a\":1", ",\"a\":1", 30000, "", "error"),
             ("unclosed nesting", "", "[", 1000, "", "error"), ("nesting", "", "[", 1000, "]" * 1000, "ok"),
             ("unclosed string", "[\"", "x", 300000, "", "error"), ("long list", "[", "1,", 30000, "1]", "ok"),
             ("closing brackets", "[1", "]", 30000, "", "ok"), ("commas", "[", ",", 20000, "]", "any"),
             ("colons", "{", ":", 20000, "}", "any"), ("quotes", "{", "\"", 20001, "}", "any"),
             ("deep-nesting", "", "[", 1000000, "", "error")]
    for name, pre, unit, n, post, e in longs:
        cases.append(["readlong %s %s %d %s" % (core.hx(pre), core.hx(unit), n, core.hx(post))])
        meta.append((name, e))
    res = core.run_cases(b, cases, max_crashes=3, seconds_case=8)
    # a case that ended early is looked at text by text
    again, ameta = [], []
    for c, m, got in zip(cases, meta, res):
        if got is None:
            continue
        if isinstance(m, tuple):
            judge_long(ctx, c, m, got[0])
            continue
        if any("crash" in g for g in got if isinstance(g, dict)):
            k = next(i for i, g in enumerate(got) if isinstance(g, dict) and "crash" in g)
            ctx.violation("reading %r: %s" % (m[k][0], got[k]["crash"]), {"harness": "h_json", "commands": [c[k]], "expected": "terminates"})
            got = got[:k]
        for (t, mustfail), cmd, g in zip(m, c, got):
            if g == {"ex": "error"}:
                continue
            if "ex" in g:
                ctx.violation("reading %r ends with %s" % (t, g), {"harness": "h_json", "commands": [cmd], "expected": "result or std::runtime_error"})
            elif mustfail:
                ctx.violation("%r breaks off inside a container but is read as %s" % (t, g),
                              {"harness": "h_json", "commands": [cmd], "expected": "exception"})
    ctx.traces(len(allt) + len(longs))
    ctx.sample({"cut_off": must[len(must) // 2][0], "malformed": may[-1]})
    ctx.assumptions.append("a text that takes more than 8 s or 1.5 GB counts as not terminating")


def judge_long(ctx, c, m, g):
    name, e = m
    bad = None
    if "crash" in g:
        bad = g["crash"]
    elif "ex" in g:
        if g["ex"] != "error" or e == "ok":
            bad = g
    elif e == "error":
        bad = "read as a document"
    if bad:
        if ctx.is_known(name) and "crash" in g and "segmentation" in g["crash"]:
            ctx.known_hit(name)
        else:
            ctx.violation("%s: %s" % (name, bad), {"harness": "h_json", "commands": c, "expected": e})
