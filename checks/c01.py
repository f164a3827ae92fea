"""C01: type inference.  TLC enumerates texts (scanner spec = grammar spec is an
invariant), every one of them is put to the code through every entry point."""
import random
from vlib import core

PRINT = [chr(c) for c in range(32, 127)] + ["\t", "\n"]


def tset(chars):
    def q(c):
        return {'"': '"\\""', "\\": '"\\\\"', "\t": '"\\t"', "\n": '"\\n"'}.get(c, '"%s"' % c)
    return "{" + ",".join(q(c) for c in chars) + "}"


def tseq(s):
    return "<<" + ",".join(tset([c])[1:-1] for c in s) + ">>"


def tseeds(ss):
    return "{" + ",".join(tseq(s) for s in ss) + "}"


CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Agree Total Emit\n"


def run(ctx):
    b = core.build("h_text")
    spaces = [
        ("numbers", "019+-.eE", [""], 6 if ctx.thorough else 5, 6 if ctx.thorough else 5),
        ("mixed", "05.-etrufalsx\" ", [""], 4 if ctx.thorough else 3, 4 if ctx.thorough else 3),
        ("edits2", "0279+-.eEx", ["true", "false", "1.5e+10", "-12.05", "+0", "\"a\"", ".5E-3", "00"], 9, 2 if ctx.thorough else 1),
        ("any1", PRINT, ["true", "false", "-10.25e+37", "+34567890", "\"x\"", "8", "12", "", "0.6", ".19", "2468e135"], 12, 1),
    ]
    if ctx.thorough:
        spaces.append(("words", "truefals1T ", ["true", "false", "tru", "fals"], 7, 2))
    items, seen = [], set()
    for name, al, seeds, ml, ed in spaces:
        r = core.tlc("TypeText", CFG, workers=1, coverage=True, defs=dict(
            Alphabet=tset(al), Seeds=tseeds(seeds), MaxLen=ml, Edits=ed))
        ctx.count_tlc(r, name)
        for p in r.prints:
            t = "".join(p["t"])
            if t not in seen:
                seen.add(t)
                items.append((t, p["y"]))
    kinds = {}
    for t, y in items:
        kinds[y] = kinds.get(y, 0) + 1
    ctx.cov["texts_per_type"] = kinds
    rnd = random.Random(ctx.seed)
    rnd.shuffle(items)
    cases, meta = [], []
    for i in range(0, len(items), 100):
        chunk = items[i:i + 100]
        cmds = ["type " + core.hx(t) for t, _ in chunk]
        exp = [{"parse": y, "call": y, "is": "" if y == "NONE" else y} for _, y in chunk]
        # the same texts as lists, in another order, and once more alone: no history
        c2 = chunk[:]
        rnd.shuffle(c2)
        for k in range(0, len(c2), 25):
            part = c2[k:k + 25]
            cmds.append("types %d " % len(part) + " ".join(core.hx(t) for t, _ in part))
            exp.append([y for _, y in part])
        cmds.append("types 0")
        exp.append([])
        t, y = c2[0]
        cmds += ["type " + core.hx(t)] * 2
        exp += [{"parse": y, "call": y, "is": "" if y == "NONE" else y}] * 2
        cases.append(cmds)
        meta.append(exp)
    res = core.run_cases(b, cases)
    for cmds, exp, got in zip(cases, meta, res):
        if got is None:
            continue
        for c, e, g in zip(cmds, exp, got):
            if e != g:
                def dec(tok):
                    return bytes.fromhex(tok[1:]).decode("latin-1") if tok.startswith("x") else tok
                ctx.violation("%s: specification says %s, code says %s" % (
                    [dec(x) for x in c.split()][:30], e, g),
                    {"harness": "h_text", "commands": [c], "expected": e})
    ctx.traces(len(items))
    for t, y in items[:4]:
        ctx.sample({"text": t, "type": y})
    # texts far longer than any model: the verdict of the scanner depends on the
    # automaton state only, so a run of one character has a known verdict
    longs = [("", "1", "", "INT"), ("", "1", ".5", "FLOAT"), ("1.", "5", "", "FLOAT"),
             ("1e", "5", "", "FLOAT"), ("x", "y", "", "STRING"), ("\"", "a", "\"", "STRING")]
    sizes = [50, 1000, 300000]
    lc, le = [], []
    for p, c, q, y in longs:
        for n in sizes:
            lc.append(["typelong %s %s %d %s" % (core.hx(p), core.hx(c), n, core.hx(q))])
            le.append((y, n))
    for cmd, (y, n), got in zip(lc, le, core.run_cases(b, lc)):
        if got is None:
            continue
        g = got[0]
        if g != y:
            if n == 300000 and isinstance(g, dict) and "crash" in g and ctx.is_known("long-text"):
                ctx.known_hit("long-text")
            else:
                ctx.violation("long text (%d characters): expected %s, code says %s" % (n, y, g),
                              {"harness": "h_text", "commands": cmd, "expected": y})
    ctx.traces(len(lc))
    ctx.assumptions.append("texts are byte strings; exploration is bounded in length, alphabet and edit distance as listed under models")
