"""P23: arrays, their groups and positions, and the lists of arrays."""
from vlib import setupdrv


def run(ctx):
    setupdrv.check(ctx, ("lists", "groups", "positions", "metadata", "accepted", "refused", "a source"), True, ctx.n(250, 3000), ctx.n(350, 4000))
