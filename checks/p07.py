"""P07: keeping only the last export removes exactly the earlier exports of the same recorder, and loses nothing."""
from vlib import simdrv
from . import core

CLAUSES = {"kept files", "kept values", "export lost", "exported files", "exported values", "exported snapshots",
           "instant files"}


def run(ctx):
    core.buffer_model(ctx, "NoErr ExportTrue RecDone")
    cases = []
    for i in range(ctx.n(110, 900)):
        c = simdrv.gen_case(ctx.rng, i, proc=True, big=i % 5 == 0)
        c["folder"] = str(ctx.scratch / f"c{i}")
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(2, 5), nstate=(0, 1), ninst=(0, 1), keep=True, multi=i % 2 == 1))
    core.run_cases(ctx, cases, CLAUSES)
