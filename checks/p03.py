"""P03: the history a processor sees does not depend on where the storage is rolled over."""
from vlib import simdrv
from . import core

CLAUSES = {"history", "own", "mic", "source", "contribution", "control"}


def run(ctx):
    core.buffer_model(ctx, "View NoErr Depth")
    cases = []
    for i in range(ctx.n(200, 2000)):
        # short chunks and long runs, so that there are many rollovers
        c = simdrv.gen_case(ctx.rng, i, proc=True, big=i % 3 == 0, aux=1 + i % 2, tot=int(ctx.rng.integers(20, 60)))
        if i % 2 == 0:
            c["C"] = c["b"] + int(ctx.rng.integers(0, 4))
        cases.append(c)
    core.run_cases(ctx, cases, CLAUSES)
