"""C15: every transition of NetModel.tla with several models that share values or not."""
from vlib import core
from vlib.models import *

ALL = ("step", "predict", "train", "trainfrom", "copy", "assign", "swap", "reset")


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    one = [D(1, 2), MSE(2)]
    deep = [D(2, 2), R(2), D(2, 1), MSE(1, 4)]
    fan = [D(1, 2), D(2, 2), R(2), MSE(2, 9), MSE(2)]
    conv = [CONV(2, 3, 1, 2, 2, 2), MAX(1, 2, 2, 1, 2, 1), D(2, 1), MSE(1)]
    cases = [
        ("copies of a model", one, chain(2), [[2]], [[0, 1]], ALL, 6 if T else 5, 1, 3),
        ("models of their own", one, chain(2), [[2]], [[0, 1]], ALL, 5 if T else 4, 2, 3),
        ("training through copies", one, chain(2), [[2], [-1]], [[0, 1]], ("step", "train", "trainfrom", "copy"), 5, 1, 3),
        ("copies of a deeper model", deep, chain(4), [[1, 2], [-1, 1]], [[1]], ALL, 5, 1, 2),
        ("copies of a forked model", fan, [("edge", 1, 2), ("edge", 1, 3), ("edge", 2, 4), ("edge", 3, 5)], [[1]], [[1, 0]], ALL, 5 if T else 4, 1, 3),
        ("copies of a convolutional model", conv, chain(4), [[1, 3, 0, -2, 4, 2]], [[1]], ALL, 5 if T else 4, 1, 2),
        ("two models assigned and trained", deep, chain(4), [[1, 2]], [[1]], ("step", "predict", "train", "assign", "swap"), 4, 2, 2),
    ]
    if T:
        cases += [("four models", one, chain(2), [[2]], [[0, 1]], ("step", "train", "trainfrom", "copy", "assign"), 4, 1, 4),
                  ("three independent models", one, chain(2), [[2]], [[0, 1]], ("step", "predict", "train", "assign", "swap"), 4, 3, 3)]
    ctx.each(lambda name, layers, edges, xs, ts, ops, n, models, maxm: explore(ctx, b, name, layers, edges, xs, ts, ops, n, models, maxm), cases)
