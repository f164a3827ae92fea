"""One check's histories through sanitized harnesses, in a process of its own (C28, C29):
python3 -m vlib.sanrun PROPERTY KIND LIMIT SHARE OUT"""
import importlib, json, os, random, sys, time, traceback
from vlib import core


def main():
    prop, kind, limit, share, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    ctx = core.Ctx(prop)
    ctx.share = share
    core.SAN = core.Sanitized(random.Random("%s %d" % (prop, ctx.seed)), limit, "memory" if kind == "memory" else "threads")
    if kind == "pairs":
        core.SAN.in_pairs()
    d = {"prop": prop, "error": None}
    try:
        importlib.import_module("checks." + prop.lower()).run(ctx)
    except Exception:                              # a case that was not heard to its end may confuse its check
        d["error"] = traceback.format_exc()[-3000:]
    s = core.SAN
    # a stack used up by deep nesting is judged where nesting is (C01, C04)
    s.reports = [r for r in s.reports if "stack-overflow" not in r[3]]
    d.update(reports=s.reports[:40], nreports=len(s.reports), leaks=core.leaks() if kind == "memory" else [], ran=s.ran, commands=s.commands, skipped=s.skipped,
             wrong=[(w, r) for w, r in ctx.viol[:20]], states=ctx.cov["states"], transitions=ctx.cov["transitions"])
    with open(out, "w") as f:
        json.dump(d, f, default=str)


def parts(ctx, todo, jobs=4):
    """todo: (property, kind, limit, share); each in a process of its own"""
    import subprocess, tempfile, shutil
    from concurrent.futures import ThreadPoolExecutor
    work = tempfile.mkdtemp(prefix="vsan_")
    env = dict(os.environ, VERIF_TIER="quick", VERIF_SEED=str(ctx.seed), PYTHONPATH=core.VERIF)

    def part(p, kind, limit, share):
        t0 = time.time()
        out = os.path.join(work, p + kind)
        r = subprocess.run([sys.executable, "-m", "vlib.sanrun", p, kind, str(limit), str(share), out], cwd=core.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise core.CheckError("%s: %s" % (p, r.stdout[-2000:]))
        with open(out) as f:
            d = json.load(f)
        if d["error"] and not d["nreports"]:
            raise core.CheckError("%s: %s" % (p, d["error"]))
        with core.LOCK:
            ctx.cov["states"] += d["states"]
            ctx.cov["transitions"] += d["transitions"]
            ctx.cov["traces_validated_against_impl"] += d["ran"]
            ctx.cov["commands"] = ctx.cov.get("commands", 0) + d["commands"]
            ctx.cov.setdefault("parts", {})[p + " " + kind] = dict({k: d[k] for k in ("ran", "commands", "skipped", "states")}, seconds=round(time.time() - t0))
        return d
    try:
        with ThreadPoolExecutor(jobs) as ex:
            return [f.result() for f in [ex.submit(part, *t) for t in todo]]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(ctx, d, kind, seen):
    for binary, case, at, what, err in d["reports"]:
        key = what.split("  in ")[-1]
        if key not in seen:
            seen.add(key)
            at = min(at, len(case) - 1)
            ctx.violation("a history of %s: %s, at '%s'" % (d["prop"], what, core.show(case[at])), replay(binary, case[:at + 1], err, kind))


def replay(binary, case, err, kind):
    name = os.path.basename(binary)
    lib = name.endswith("_l")
    return {"harness": name[:-2] if lib else name, "lib": lib, "sanitized": kind, "commands": case, "report": err[:6000]}


if __name__ == "__main__":
    main()
