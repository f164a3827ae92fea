"""C14: every transition of NetModel.tla with one model, for several networks."""
from vlib import core
from vlib.models import *


def networks(T):
    yield "one dense layer", [D(2, 2), MSE(2)], chain(2), [[1, 2], [-1, 0]], [[0, 1], [2, -1]]
    yield "dense, relu, dense", [D(2, 2), R(2), D(2, 1), MSE(1, 4)], chain(4), [[1, 2], [-2, 1]], [[1], [-3]]
    yield "batch of two, linear in front", [LI(2), D(2, 2), MSE(2, 3, 2)], chain(3), [[1, -2], [3, 1]], [[0, 1], [1, 1]]
    yield "layers added in another order", [MSE(1, 1), D(2, 1), R(2), D(1, 2)], [("edge", 4, 3), ("edge", 2, 1), ("edge", 3, 2)], [[2], [-1]], [[0], [2]]
    fan = [D(1, 2), D(2, 2), R(2), MSE(2, 9), MSE(2)]
    yield "fan out with two losses", fan, [("edge", 1, 2), ("edge", 1, 3), ("edge", 2, 4), ("edge", 3, 5)], [[1], [-2]], [[1, 0], [0, 3]]
    yield "loss in the middle", [D(2, 2), MSE(2), D(2, 2), MSE(2, 2)], [("edge", 1, 2), ("edge", 1, 3), ("edge", 3, 4)], [[1, 1], [0, -1]], [[1, 0], [2, 2]]
    yield "an output without loss", [D(2, 2), R(2), D(2, 2), MSE(2)], [("edge", 1, 2), ("edge", 1, 3), ("edge", 3, 4)], [[1, 1], [1, -2]], [[1, 0]]
    yield "no loss at all", [D(2, 3), R(3), D(3, 2)], chain(3), [[1, 2], [-1, 1]], [[1]]
    yield "a single layer", [D(2, 2)], [], [[1, 2], [-1, 1]], [[1]]
    yield "two chains", [D(2, 1), D(2, 1), MSE(1), MSE(1, 5)], [("edge", 1, 3), ("edge", 2, 4)], [[1, 2], [-1, 1]], [[1], [0]]
    yield "a front layer without gradients", [D(2, 2), D(2, 1), MSE(1)], [("front", 1, 2), ("edge", 2, 3)], [[1, 2], [-1, 1]], [[1], [0]]
    yield "arcs added one by one, twice", [D(2, 2), D(2, 1), MSE(1)], [("back", 2, 3), ("front", 1, 2), ("back", 1, 2), ("front", 2, 3), ("edge", 1, 2)], [[1, 2], [-1, 1]], [[1], [0]]
    yield "convolution and pooling", [CONV(2, 3, 1, 2, 2, 2), MAX(1, 2, 2, 1, 2, 1), D(2, 1), MSE(1)], chain(4), [[1, 3, 0, -2, 4, 2], [0, 1, 5, 2, -1, 3]], [[1], [0]]
    yield "a dropout layer that drops everything", [D(2, 2), DROP(2, 1), D(2, 2), MSE(2)], chain(4), [[1, 2], [-1, 1]], [[1, 0]]
    yield "a dropout layer that drops nothing", [DROP(2, 0), D(2, 2), DROP(2, 0), MSE(2)], chain(4), [[1, 2], [-1, 1]], [[1, 0]]
    yield "dropout last", [D(2, 2), DROP(2, 1)], chain(2), [[1, 2], [-1, 1]], [[1, 0]]
    if T:
        yield "deeper", [D(2, 2), R(2), D(2, 2), R(2), D(2, 1), MSE(1)], chain(6), [[1, 2], [-1, 1]], [[1], [0]]
        yield "three branches", [D(1, 2), R(2), D(2, 1), LI(2), D(2, 1), D(2, 1), MSE(1), MSE(1), MSE(1)], \
            [("edge", 1, 2), ("edge", 2, 3), ("edge", 1, 4), ("edge", 4, 5), ("edge", 1, 6), ("edge", 3, 7), ("edge", 5, 8), ("edge", 6, 9)], [[1], [2]], [[1], [0]]


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    ctx.each(lambda name, layers, edges, xs, ts: explore(ctx, b, name, layers, edges, xs, ts, ("step", "predict", "train", "reset"), 5 if T else 4),
             list(networks(T)))
