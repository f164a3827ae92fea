"""C28: the histories of all specifications through harnesses built with the
address and undefined behaviour sanitizers: whatever a history does, it reads and
writes only what is alive, and when everything is over nothing is left."""
import random
from vlib import core, sanrun

# the longest first
PARTS = "C18 C24 C22 C13 C21 C17 C14 C23 C15 C05 C12 C06 C07 C19 C16 C20 C27 C25 C09 C10 C26 C11 C01 C08 C02 C03 C04".split()
# the part of a check's models that is explored again in a quick run
SHARE = {"C13": .4, "C14": .4, "C15": .6, "C16": .5, "C17": .45, "C18": .25, "C19": .4, "C20": .7, "C21": .3, "C22": .35, "C23": .5, "C24": .5, "C25": .6, "C27": .5}


def run(ctx):
    core.SAN = core.Sanitized(random.Random(ctx.seed), 10 ** 9)
    names = [("h_bin", False), ("h_csv", False), ("h_data", False), ("h_fnn", True), ("h_graph", True), ("h_json", False), ("h_math", True),
             ("h_net", True), ("h_pipe", False), ("h_text", False), ("h_train", True)]
    core.build("h_net", lib=True)                  # the library, once for all
    ctx.each(lambda n, l: core.build(n, lib=l), names, jobs=8)
    seen = set()
    for d in sanrun.parts(ctx, [(p, "memory", 3000 if ctx.thorough else 250, 1 if ctx.thorough else SHARE.get(p, 1)) for p in PARTS]):
        sanrun.report(ctx, d, "memory", seen)
        for binary, case, k in d["leaks"]:
            key = (d["prop"], k)
            if key not in seen:
                seen.add(key)
                ctx.violation("a history of %s leaves %d bytes behind whenever it is run" % (d["prop"], k), sanrun.replay(binary, case, "", "memory"))
    ctx.sample({"parts": {k: v["ran"] for k, v in ctx.cov["parts"].items()}})
