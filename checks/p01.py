"""P01: microphone signals are the exact convolution of the sources with the impulse responses."""
from vlib import simdrv
from . import core

CLAUSES = {"mic", "source", "unobserved values", "recorded indices", "missing call"}


def run(ctx):
    core.buffer_model(ctx, "View NoErr Sync")
    cases = []
    for i in range(ctx.n(150, 1500)):
        cases.append(simdrv.gen_case(ctx.rng, i, proc=True, big=i % 5 == 0))
    for i in range(ctx.n(60, 500)):
        cases.append(simdrv.add_plain_records(simdrv.gen_case(ctx.rng, 10000 + i, proc=False, big=i % 5 == 0)))
    core.run_cases(ctx, cases, CLAUSES)
