"""Layers and models: commands of harness h_net, TLA+ terms, comparison."""
import math
from vlib import core

hx = core.hx


def tla(v):
    """a Python value as a TLA+ term (tuples are sets)"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):
        return "<<%s>>" % ", ".join(map(tla, v))
    if isinstance(v, (tuple, set, frozenset)):
        return "{%s}" % ", ".join(map(tla, v))
    return "[%s]" % ", ".join("%s |-> %s" % (k, tla(w)) for k, w in v.items())


def vec(xs):
    return "%d %s" % (len(xs), " ".join((x.hex() if isinstance(x, float) else str(x) for x in xs))) if xs else "0"


def describe(L, name):
    k = L["kind"]
    h = "%s %s " % (k, hx(name))
    if k == "dense":
        return h + "%d %d" % (L["in"], L["out"])
    if k == "conv":
        return h + "%d %d %d %d %d %d %d %d %d %d" % tuple(L[f] for f in ("h", "w", "c", "kh", "kw", "sh", "sw", "ph", "pw", "f"))
    if k in ("max", "avg"):
        return h + "%d %d %d %d %d %d %d" % tuple(L[f] for f in ("h", "w", "c", "kh", "kw", "sh", "sw"))
    if k == "elu":
        return h + "%d %r" % (L["in"], L["alpha"])
    if k == "drop":
        return "dropout %s %d %d 7" % (hx(name), L["in"], L["rate"])
    if k == "rnn":
        return h + "%d %d %d %d" % (L["in"], L["out"], L["hid"], L["steps"])
    if k == "dropout":
        return h + "%d %r %d" % (L["in"], L["p"], L.get("seed", 1))
    if k == "mse":
        return h + "%d %d %r" % (L["in"], L["batch"], L["tol"])
    if k == "cce":
        return h + "%d %d" % (L["in"], L["batch"])
    return h + "%d" % L["in"]


def val(x):
    if isinstance(x, str):
        return float(x) if x in ("nan", "inf", "-inf") else float.fromhex(x)
    return float(x)


def close(e, g, tol=1e-11):
    e, g = val(e), val(g)
    if math.isnan(e) or math.isnan(g):
        return math.isnan(e) and math.isnan(g)
    return e == g or abs(e - g) <= tol * max(1.0, abs(e), abs(g))


def vclose(e, g, tol=1e-11):
    return isinstance(g, list) and len(e) == len(g) and all(close(a, b, tol) for a, b in zip(e, g))


def score(sc, n):
    """accuracy and average loss of a record [cum, cnt, cor], n outputs"""
    if sc["cnt"] == 0:
        return float("nan"), float("nan")
    return sc["cor"] / sc["cnt"], sc["cum"] / n / sc["cnt"]


def build_model(m, net, edges, name, params):
    """commands that make model m: net is a list of layers, edges a list of
    (how, from, to) with indices from 1"""
    c = ["mnew %d %s" % (m, hx(name))]
    for i, L in enumerate(net):
        c.append("madd %d %s" % (m, describe(L, "%s_l%d" % (name, i))))
    for how, f, t in edges:
        c.append("marc %d %s %d %d" % (m, how, f - 1, t - 1))
    for i, p in enumerate(params):
        if p:
            c.append("mset %d %d %s" % (m, i, vec(p)))
    return c


def differs_models(state, got, net, tol=1e-11):
    """state: View of NetModel; got: list of models as observed"""
    if not isinstance(got, list) or len(got) != len(state["models"]):
        return "%s models, should be %d" % (len(got) if isinstance(got, list) else got, len(state["models"]))
    for i, (e, g) in enumerate(zip(state["models"], got)):
        w = "model %d " % (i + 1)
        if len(g["layers"]) != len(net):
            return w + "has %d layers" % len(g["layers"])
        accs, losses = [], []
        for l, (L, gl) in enumerate(zip(net, g["layers"])):
            if L["kind"] in ("mse", "cce"):
                acc, loss = score(e["sc"][l], L["in"])
                accs.append(acc)
                losses.append(loss)
                if not close(acc, gl["acc"], tol):
                    return w + "accuracy of loss %d is %s, should be %s" % (l + 1, gl["acc"], acc)
                if not close(loss, gl["loss"], tol):
                    return w + "average loss of loss %d is %s, should be %s" % (l + 1, gl["loss"], loss)
                continue
            p = state["stores"][e["s"] - 1][l]
            if not vclose(p, gl["p"], tol):
                return w + "layer %d has learned values %s, should be %s" % (l + 1, gl["p"], p)
            if not vclose(e["g"][l], gl["g"], tol):
                return w + "layer %d has gradients %s, should be %s" % (l + 1, gl["g"], e["g"][l])
            if e["out"][l] and not vclose(e["out"][l], gl["y"], tol):
                return w + "layer %d has output %s, should be %s" % (l + 1, gl["y"], e["out"][l])
        if accs:
            if not close(sum(accs) / len(accs), g["acc"], tol):
                return w + "accuracy is %s, should be %s" % (g["acc"], sum(accs) / len(accs))
            if not close(sum(losses) / len(losses), g["loss"], tol):
                return w + "average loss is %s, should be %s" % (g["loss"], sum(losses) / len(losses))
    return None
