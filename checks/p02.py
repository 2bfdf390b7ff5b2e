"""P02: the processor is called once per block, sees only the past, and its output is used in the following block."""
from vlib import simdrv
from . import core

CLAUSES = {"missing call", "block size", "future", "control", "mic", "extra call"}


def run(ctx):
    core.buffer_model(ctx, "View Causal NoErr Depth Sync CallsAgree")
    core.replay_behaviours(ctx, ctx.n(150, 1500))
    cases = []
    for i in range(ctx.n(200, 2000)):
        c = simdrv.gen_case(ctx.rng, i, proc=True, big=i % 4 == 0)
        cases.append(c)
    core.run_cases(ctx, cases, CLAUSES)
