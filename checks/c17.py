"""C17: forward passes of LayerRun.tla for all small shapes, and what follows
from mixing training passes and evaluations."""
from vlib import core, layers


def run(ctx):
    b = core.build("h_net", lib=True)
    T = ctx.thorough
    sweep = [(("train", 1),), (("eval", 2),), (("train", 3),), (("eval", 1),)]
    mix = [(("train", 1), ("eval", 1), ("back", 1)), (("train", 2), ("eval", 2), ("back", 2)), (("train", 1), ("eval", 3), ("back", 1)), (("eval", 2), ("train", 1))]
    items = [(ctx, b, n, s, sweep, 4 if T else 1) for n, s in layers.shapes(T, ctx.seed)]
    items += [(ctx, b, n, s, sweep, 2 if T else 1, False) for n, s in layers.wide(T)]
    few = " \\cup ".join([layers.dense((2, 3), (1, 2)), layers.flat("relu", (3,)), layers.flat("linear", (2,)), layers.flat("drop", (2,), rate=1), layers.flat("drop", (2,), rate=0),
                          layers.flat("softmax", (3,)), layers.flat("tanh", (2,)), layers.flat("sigmoid", (2,)), layers.flat("elu", (2,), al=2),
                          layers.box("conv", (3,), (2,), (2,), (2,), (1,), (0, 1), (2,), "M.ph = M.pw"), layers.box("max", (3,), (2,), (2,), (2,), (1,)), layers.box("avg", (2,), (3,), (2,), (2,), (1,))])
    items.append((ctx, b, "mixed histories", few, mix, 4))
    ctx.each(layers.explore, items)
