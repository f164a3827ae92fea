"""Spelling out the tokens and values of tla/JsonText.tla."""
from vlib import core

# (kind for the builder, text given to the builder, text in a document, type)
STRINGS = [("Ks", "a", "a"), ("Ks", "", ""), ("KS", "true", "true"), ("KS", "-12", "-12"), ("Ks", "b,]", "b,]"),
           ("Ks", "}{[", "}{["), ("Ks", ":", ":"), ("Kc", " ", " "), ("Ks", "\\", "\\"), ("KS", "1.5e3", "1.5e3"),
           ("Ks", "x\ny\t", "x\ny\t"), ("Ks", "\xc3\xa9", "\xc3\xa9"), ("Kc", "[1,2", "[1,2"), ("Ks", "TRUE", "TRUE")]
SCALARS = [("Ki", "-12", "-12", "INT"), ("Kb", "true", "true", "BOOL"), ("Kd", "0.5", "0.5", "FLOAT"),
           ("Kb", "false", "false", "BOOL"), ("Ku", "4294967295", "4294967295", "INT"), ("Ki", "0", "0", "INT"),
           ("Kd", "1e-07", "1e-07", "FLOAT"), ("Kl", "-9223372036854775808", "-9223372036854775808", "INT"),
           ("Km", "18446744073709551615", "18446744073709551615", "INT"), ("Kd", "-2.25e+200", "-2.25e+200", "FLOAT"),
           ("Kx", "77", "77", "INT"), ("Ky", "8", "8", "INT"), ("Kd", "0.1", "0.1", "FLOAT"), ("Ks", "+5", "+5", "INT")]
KEYS = ["", " ", "!,", "0", "A:", "a", "ab", "b}", "k]", "{"]      # in the writer's order

# `as is`: leaf text of a double is the writer's business
ANYNUM = {"anynum": True}


class Spelling:
    """Assigns texts to the ids of the model."""
    def __init__(self, strings, scalars, keys):
        self.s, self.b, self.k = strings, scalars, keys   # dicts id -> entry

    def token(self, t):
        if t[0] == "p":
            return '"' if t[1] == "q" else t[1]
        if t[0] == "s":
            return '"%s"' % self.s[t[1]][2]
        if t[0] == "k":
            return '"%s"' % self.k[t[1]]
        return self.b[t[1]][2]

    def text(self, toks):
        return "".join(self.token(t) for t in toks)

    def build(self, v):
        """command tokens that build the value through the interface"""
        if v["k"] == "leaf":
            kind, i = v["v"]
            e = self.s[i] if kind == "s" else self.b[i]
            return [e[0], core.hx(e[1])]
        if v["k"] == "list":
            r = ["A", str(len(v["s"]))]
            for x in v["s"]:
                r += self.build(x)
            return r
        m = v["m"] if isinstance(v["m"], dict) else {}
        r = ["D", str(len(m))]
        for key, x in m.items():
            r += [core.hx(self.k[key])] + self.build(x)
        return r

    def expect(self, v, text=False):
        """dump of the value; text=True: as read from the model's own text"""
        if v["k"] == "leaf":
            kind, i = v["v"]
            if kind == "s":
                return {"v": self.s[i][2], "y": "STRING"}
            e = self.b[i]
            if e[0] == "Kd" and not text:
                return {"v": ANYNUM, "y": "FLOAT"}
            return {"v": e[2], "y": e[3]}
        if v["k"] == "list":
            return {"s": [self.expect(x, text) for x in v["s"]]}
        m = v["m"] if isinstance(v["m"], dict) else {}
        return {"d": {self.k[key]: self.expect(x, text) for key, x in m.items()}}


def same(exp, got, types=True):
    if isinstance(exp, dict) and isinstance(got, dict) and "v" in exp:
        if set(got) != {"v", "y"}:
            return False
        if exp["v"] is not ANYNUM and exp["v"] != got["v"]:
            return False
        # the empty text: an empty string is announced without a type
        return not types or exp["y"] == got["y"] or exp["v"] == "" and got["y"] == "NONE"
    if isinstance(exp, dict) and isinstance(got, dict):
        if set(exp) != set(got):
            return False
        if "s" in exp:
            return isinstance(got["s"], list) and len(exp["s"]) == len(got["s"]) and all(
                same(a, b, types) for a, b in zip(exp["s"], got["s"]))
        return isinstance(got["d"], dict) and set(exp["d"]) == set(got["d"]) and all(
            same(x, got["d"][k], types) for k, x in exp["d"].items())
    return exp == got


def uses(toks):
    r = {"s": set(), "b": set(), "k": set()}
    for t in toks:
        if t[0] in r:
            r[t[0]].add(t[1])
    return r


def tla_set(ids):
    return "{" + ",".join('"%s"' % i for i in ids) + "}"


def model(ctx, name, nstr, nsc, nkey, maxtok, depth, err):
    keys = ["k%d" % i for i in range(1, nkey + 1)]
    rank = "[x \\in %s |-> CASE %s]" % (tla_set(keys), " [] ".join(
        'x = "%s" -> %d' % (k, i) for i, k in enumerate(keys)))
    r = core.tlc("JsonText", "SPECIFICATION Spec\nINVARIANTS WriterReader NoEarlyEnd Emit\n", coverage=True,
                 defs=dict(Strings=tla_set(["s%d" % i for i in range(1, nstr + 1)]),
                           Scalars=tla_set(["b%d" % i for i in range(1, nsc + 1)]),
                           Keys=tla_set(keys), KeyRank=rank, MaxTok=maxtok, MaxDepth=depth,
                           AllowErr="TRUE" if err else "FALSE"))
    ctx.count_tlc(r, name)
    ctx.log("JsonText", name, r.distinct, "states", "%.1fs" % r.wall)
    return r.prints


def random_spelling(rnd, nstr=3, nsc=3, nkey=3):
    ks = sorted(rnd.sample(range(len(KEYS)), nkey))
    return Spelling({"s%d" % (i + 1): STRINGS[j] for i, j in enumerate(rnd.sample(range(len(STRINGS)), nstr))},
                    {"b%d" % (i + 1): SCALARS[j] for i, j in enumerate(rnd.sample(range(len(SCALARS)), nsc))},
                    {"k%d" % (i + 1): KEYS[j] for i, j in enumerate(ks)})
