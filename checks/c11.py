"""C11: every construction of a data set TLC explores (DataBuild.tla) is built by
the code and everything its accessors return is compared."""
import random
from vlib import core, data


def run(ctx):
    b = core.build("h_data")
    T = ctx.thorough
    labs = "SUBSET (0..%d)" % (3 if T else 2)
    runs = [("vec", dict(MaxCells=13 if T else 9, MaxRows=0, MaxSeqs=0, MaxLen=0, Widths="0..5" if T else "0..4", Seqs="0..5" if T else "0..4",
                         LabSets="(%s) \\cup {{0,7},{2,3}}" % labs)),
            ("mat", dict(MaxCells=0, MaxRows=5 if T else 4, MaxSeqs=0, MaxLen=3 if T else 2, Widths="{}", Seqs="0..4" if T else "0..3",
                         LabSets="{{},{0},{1},{0,1},{0,5}}")),
            ("cub", dict(MaxCells=0, MaxRows=2, MaxSeqs=3 if T else 2, MaxLen=2, Widths="{}", Seqs="{}",
                         LabSets="{{},{0},{1},{0,1,4}}"))]
    rnd = random.Random(ctx.seed)
    for kind, defs in runs:
        r = core.tlc("DataBuild", "SPECIFICATION Spec\nINVARIANTS Right Emit\n", coverage=True, defs=dict(defs, Kind='"%s"' % kind))
        ctx.count_tlc(r, kind)
        rnd.shuffle(r.prints)
        cases = [[data.cmd(0, kind, p), "labs 0 " + data.n(p["t"]["lab_idx"]), "labs 0 " + data.n(p["d"]["lab_idx"])] for p in r.prints]
        n = 0
        for p, c, got in zip(r.prints, cases, core.run_cases(b, cases)):
            if got is None:
                continue
            n += 1
            for i, e in enumerate((p["d"], p["t"], p["d"])):
                why = data.differs(e, got[i])
                if why:
                    ctx.violation("%s: %s" % (" ; ".join(c[:i + 1]), why), {"harness": "h_data", "commands": c[:i + 1], "expected": e})
                    break
        ctx.traces(n)
        ctx.sample({"case": cases[0][0], "expected": r.prints[0]["d"]["shape"]})
        ctx.log(kind, r.distinct, "states", n, "data sets")
