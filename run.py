#!/usr/bin/env python3
"""Entry point of every check:  run.py <property id>      (VERIF_TIER, VERIF_SEED)
                                run.py --replay <file>    show a recorded violation again"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        import json
        for v in json.load(open(sys.argv[2]))[:10]:
            print("==", v["what"])
            core.SAN = core.Sanitized(None, 10 ** 9, {"pairs": "threads"}.get(v["sanitized"], v["sanitized"])) if v.get("sanitized") else None
            if v.get("sanitized") == "pairs":
                core.SAN.in_pairs()
            if "commands" in v:
                b = core.build(v["harness"], lib=v.get("lib", False))
                cases = [[]]
                for c in v["commands"]:
                    if c == "#":
                        cases.append([])
                    else:
                        cases[-1].append(c)
                for case, got in zip(cases, core.run_cases(b, cases)):
                    for c, g in zip(case, got or ["-"] * len(case)):
                        print("   ", c, "->", g)
                print("    expected:", v.get("expected"))
                for r in core.SAN.reports if core.SAN else []:
                    print(r[4])
        return 0
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    ctx = core.Ctx(prop)
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % prop)
        return 2
    return rc


sys.exit(main())
