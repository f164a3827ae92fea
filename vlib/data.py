"""Data sets: commands of harness h_data and comparison with the specification."""


def n(xs):
    return "%d %s" % (len(xs), " ".join(map(str, xs))) if xs else "0"


def rows(m):
    return "%d %s" % (len(m), " ".join(n(r) for r in m))


def cmd(k, kind, p):
    if kind == "vec":
        return "vec %d %d %d %s %s" % (k, p["w"], p["s"], n(p["l"]), n(p["vec"]))
    if kind == "mat":
        return "mat %d %d %s %s" % (k, p["s"], n(p["l"]), rows(p["mat"]))
    return "cub %d %s %d %s" % (k, n(p["l"]), len(p["cub"]), " ".join(rows(m) for m in p["cub"]))


LISTS = ("entry", "input", "label", "entry_seq", "input_seq", "label_seq")


def scale(x, unit):
    if isinstance(x, list):
        return [scale(y, unit) for y in x]
    return x / unit


def val(x):
    if isinstance(x, str):
        return float(x) if x in ("nan", "inf", "-inf") else float.fromhex(x)
    return x


def same(e, g):
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(same(a, b) for a, b in zip(e, g))
    return e == val(g)


def differs_shape(e, g, unit=1):
    """e: shape in the specification, g: shape reported by the code"""
    if not isinstance(g, dict) or "data" not in g:
        return "no data set but %s" % (g,)
    if not same(scale(e["data"], unit), g["data"]):
        return "data is %s, expected %s" % (g["data"], scale(e["data"], unit))
    if g["empty"] != (not e["data"]):
        return "empty() is %s" % g["empty"]
    if not e["data"]:
        if g["w"] > 0 and g["size"] > 0:
            return "%d rows of width %d are announced but there is no data" % (g["size"], g["w"])
        return None
    for f in ("w", "seq", "size"):
        if e[f] != g[f]:
            return "%s is %s, expected %s" % ({"w": "row width", "seq": "sequence size", "size": "number of rows"}[f], g[f], e[f])
    return None


def differs(e, g, unit=1):
    if not isinstance(g, dict) or "shape" not in g:
        return "expected a data set, got %s" % (g,)
    w = differs_shape(e["shape"], g["shape"], unit)
    if w:
        return w
    if not g["beyond"]:
        return "rows are returned beyond the end"
    if not e["shape"]["data"]:
        return "a row of an empty data set is not empty" if any(any(x) for f in LISTS for x in g[f]) else None
    for f in LISTS:
        if not same(scale(e[f], unit), g[f]):
            return "%s is %s, expected %s" % (f, g[f], scale(e[f], unit))
    for f in ("in_idx", "lab_idx"):
        if e[f] != g[f]:
            return "%s is %s, expected %s" % (f, g[f], e[f])
    for f in ("inputs", "labels"):
        w = differs_shape(e[f], g[f], unit)
        if w:
            return "%s(): %s" % (f, w)
    return None
