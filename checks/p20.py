"""P20: the recorded source contributions are the part of each source, and add up to the microphone signals."""
from vlib import simdrv
from . import core

CLAUSES = {"contribution", "mic", "unobserved values", "missing call"}


def run(ctx):
    core.buffer_model(ctx, "View NoErr Sync")
    cases = []
    for i in range(ctx.n(120, 1200)):
        cases.append(simdrv.gen_case(ctx.rng, i, proc=True, big=i % 5 == 0, contrib=True))
    for i in range(ctx.n(50, 500)):
        cases.append(simdrv.add_plain_records(simdrv.gen_case(ctx.rng, 10000 + i, proc=False, big=i % 5 == 0, contrib=True)))
    core.run_cases(ctx, cases, CLAUSES)
