"""C02: text-to-value conversion is all-or-nothing and exact."""
import random, struct
from decimal import Decimal, getcontext
from fractions import Fraction
from vlib import core
from checks.c01 import tset, tseeds

getcontext().prec = 400
getcontext().Emax = 999999999999999999
getcontext().Emin = -999999999999999999
CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS InferredConverts Monotone EmitNum\n"
DMAX = Decimal(1.7976931348623157e308)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def run(ctx):
    b = core.build("h_text")
    lims = ["32767", "-32768", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807",
            "-9223372036854775808", "18446744073709551615", "+2147483647", "0002147483647"]
    spaces = [
        ("numbers", "019+-.eEx", [""], 5 if ctx.thorough else 4, 5 if ctx.thorough else 4),
        ("limits", "0123456789.ex", lims, 22, 1),
        ("decimals", "0379+-.eEx:;", ["1.5e+10", "-12.05", ".25", "7.", "3.e2", "0.1", "123456.789e-3", "9007199254740993", "1e22", "4.35"], 24,
         2 if ctx.thorough else 1),
        ("words", "truefals01x", ["true", "false", "1", "0", ""], 6, 2 if ctx.thorough else 1),
    ]
    items, seen = [], set()
    for name, al, seeds, ml, ed in spaces:
        r = core.tlc("NumText", CFG, workers=1, coverage=True, defs=dict(
            Alphabet=tset(al), Seeds=tseeds(seeds), MaxLen=ml, Edits=ed))
        ctx.count_tlc(r, name)
        for p in r.prints:
            t = "".join(p["t"])
            if t not in seen:
                seen.add(t)
                items.append((t, p))
    random.Random(ctx.seed).shuffle(items)
    n = {"int_ok": 0, "int_refused": 0, "dec_ok": 0, "dec_refused": 0, "roundtrips": 0}
    cases, meta = [], []
    for i in range(0, len(items), 100):
        cmds, exp = [], []
        for t, p in items[i:i + 100]:
            for k, v in p["i"].items():
                cmds.append("conv %s %s" % (k, core.hx(t)))
                if v["ok"]:
                    val = ("-" if v["neg"] else "") + "".join(v["mag"])
                    exp.append({"ok": True, "v": val})
                    n["int_ok"] += 1
                    if k in ("int", "long", "uint", "ulong"):
                        cmds.append("show %s %s" % (k, val))
                        exp.append(val)
                        n["roundtrips"] += 1
                else:
                    exp.append({"ok": False})
                    n["int_refused"] += 1
            ex = t.lower().partition("e")[2].lstrip("+-").lstrip("0")
            if p["d"] and len(ex) <= 5:
                d = Decimal(t)
                if d == 0 or Decimal("1e-30") <= abs(d) <= Decimal("1e30"):
                    cmds.append("conv double " + core.hx(t))
                    exp.append({"ok": True, "v": ("f", float(Fraction(d)) if d else (-0.0 if t[0] == "-" else 0.0))})
                    cmds.append("conv float " + core.hx(t))
                    exp.append({"ok": True, "v": ("f", f32(float(d)))})
                    n["dec_ok"] += 1
                elif abs(d) > DMAX * 2:  # does not fit
                    cmds.append("conv double " + core.hx(t))
                    exp.append({"ok": False})
            elif not p["d"]:
                for k in ("double", "float"):
                    cmds.append("conv %s %s" % (k, core.hx(t)))
                    exp.append({"ok": False})
                n["dec_refused"] += 1
            cmds.append("conv bool " + core.hx(t))
            exp.append({"ok": True, "v": "1" if p["b"] else "0"})
            cmds.append("conv string " + core.hx(t))
            exp.append({"ok": True, "v": t})
        cmds += ["show bool 1", "show bool 0"]
        exp += ["true", "false"]
        cases.append(cmds)
        meta.append(exp)
    res = core.run_cases(b, cases)

    def same(e, g):
        if isinstance(e, dict) and isinstance(g, dict) and isinstance(e.get("v"), tuple):
            try:
                return g.get("ok") is True and float.fromhex(g["v"]) == e["v"][1]
            except (KeyError, ValueError):
                return False
        return e == g
    for cmds, exp, got in zip(cases, meta, res):
        for c, e, g in zip(cmds, exp, got or []):
            if not same(e, g):
                w = c.split()
                txt = bytes.fromhex(w[2][1:]).decode("latin-1") if w[0] == "conv" else w[2]
                ctx.violation("%s %s %r: specification says %s, code says %s" % (w[0], w[1], txt, e, g),
                              {"harness": "h_text", "commands": [c], "expected": str(e)})
    ctx.cov["cases"] = n
    ctx.traces(sum(n.values()))
    for t, p in items[:4]:
        ctx.sample({"text": t, "int": p["i"].get("int"), "decimal": p["d"]})
    ctx.assumptions.append("rounding of accepted decimals is compared with correctly rounded binary64; negative texts for unsigned kinds and leading white space are left unspecified")
