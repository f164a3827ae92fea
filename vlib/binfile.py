"""Files and expected bytes for the MNIST and CIFAR checks."""
import json, os, tempfile, zlib
from vlib import core


def payload(n, seed):
    return bytes((seed + o * 37 + (o >> 8) * 11 + (o >> 5) * 5) & 255 for o in range(n))


def crc(b):
    return [len(b), zlib.crc32(b)]


def at(data, off, n):
    b = data[off:off + n]
    return b + bytes(n - len(b))


def walk_check(ctx, b, g, start, rnd, opens, expect, commands, maxlen=200, limit=None):
    """Replay walks over the graph g; `opens` are the set-up commands."""
    cases, meta = [], []
    for k, (s0, steps) in enumerate(g.walks(rnd, maxlen=maxlen, anywhere=False, start=start)):
        cases.append(opens + [commands(o) for _, o, _ in steps])
        meta.append(steps)
        if limit and k >= limit:
            break
    for c, steps, got in zip(cases, meta, core.run_cases(b, cases, seconds_case=30)):
        if got is None:
            continue
        if any(x is not True for x in got[:len(opens)]):
            ctx.violation("opening failed: %s" % got[:len(opens)], {"harness": "h_bin", "commands": c[:len(opens)], "expected": True})
            continue
        for i, ((_, o, _), x) in enumerate(zip(steps, got[len(opens):])):
            e = expect(o)
            if e != x:
                ctx.violation("%s(%s) after %d reads: expected %s, code gives %s" % (o["op"], commands(o), i, e, x),
                              {"harness": "h_bin", "commands": c[:len(opens) + i + 1], "expected": e})
                break
    ctx.traces(len(cases))
    return cases


def pictures(ctx, b, jobs):
    """jobs: (set-up commands, index, brightness of each pixel in hundredths, side).
    The printed images are judged by Picture.tla."""
    cases = [o + ["picture %d" % i] for o, i, _, _ in jobs]
    rec = []
    for c, (_, _, light, side), got in zip(cases, jobs, core.run_cases(b, cases)):
        if got is None:
            continue
        if not isinstance(got[-1], list):
            ctx.violation("printing an image: %s" % got[-1], {"harness": "h_bin", "commands": c})
            continue
        rec.append((c, {"side": side, "light": light, "text": got[-1], "exact": all(x % 100 == 0 for x in light)}))
    if not rec:
        return
    with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
        json.dump([r for _, r in rec], f)
        f.flush()
        r = core.tlc("Picture", "SPECIFICATION Spec\nINVARIANT Judge\n", env={"RECORDED": f.name})
    ctx.count_tlc(r, "printed images")
    bad = {p["bad"] for p in r.prints}
    for k, (c, x) in enumerate(rec):
        if k + 1 in bad:
            ctx.violation("a printed image does not show the pixels: %s" % c[-1], {"harness": "h_bin", "commands": c, "expected": "pixels in their places, marks in bands of brightness"})
    ctx.traces(len(rec))
