"""P04: recorded signals are exactly the signals, at exactly the requested samples."""
from vlib import simdrv
from . import core

CLAUSES = {"recorded indices", "recorded values", "unobserved values"}


def run(ctx):
    core.buffer_model(ctx, "NoErr RecTrue RecDone")
    core.replay_behaviours(ctx, ctx.n(150, 1500))
    cases = []
    for i in range(ctx.n(140, 1200)):
        c = simdrv.gen_case(ctx.rng, i, proc=True, big=i % 5 == 0)
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(2, 6), nstate=(0, 0), ninst=(0, 0), export=False))
    for i in range(ctx.n(60, 500)):
        c = simdrv.gen_case(ctx.rng, 10000 + i, proc=False, big=i % 5 == 0)
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(2, 6), export=False))
    for i in range(ctx.n(50, 400)):     # what is exported, in whatever form and order, leaves the record as it is
        c = simdrv.gen_case(ctx.rng, 20000 + i, proc=i % 2 == 0, big=i % 5 == 0)
        c["folder"] = str(ctx.scratch / f"x{i}")
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(2, 5), nstate=(0, 0), ninst=(0, 0), multi=True))
    core.run_cases(ctx, cases, CLAUSES)
