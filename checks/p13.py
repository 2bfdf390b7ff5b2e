"""P13: every source and microphone are connected by the response that the user asked for."""
from vlib import setupdrv


def run(ctx):
    setupdrv.check(ctx, ("response", "pairs", "accepted", "refused"), False, ctx.n(300, 3000), ctx.n(350, 4000))
