"""P06: state snapshots show the state at the requested instants."""
from vlib import simdrv
from . import core

CLAUSES = {"snapshot indices", "snapshot values", "exported snapshots", "exported snapshot values", "instant files",
           "instant values"}


def run(ctx):
    core.buffer_model(ctx, "NoErr SnapDone CallsAgree")
    cases = []
    for i in range(ctx.n(130, 1000)):
        c = simdrv.gen_case(ctx.rng, i, proc=True, big=i % 5 == 0)
        c["folder"] = str(ctx.scratch / f"c{i}")
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(0, 0), nstate=(1, 4), ninst=(1, 4)))
    core.run_cases(ctx, cases, CLAUSES)
