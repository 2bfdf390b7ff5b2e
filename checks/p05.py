"""P05: every due export is written once, under the right name, with exactly what was recorded before its index."""
from vlib import simdrv
from . import core

CLAUSES = {"listed diagnostics", "exported files", "exported values", "unexpected files"}


def run(ctx):
    core.buffer_model(ctx, "NoErr ExportTrue RecDone")
    cases = []
    for i in range(ctx.n(110, 900)):
        c = simdrv.gen_case(ctx.rng, i, proc=i % 3 > 0, big=i % 5 == 0)
        c["folder"] = str(ctx.scratch / f"c{i}")
        cases.append(simdrv.gen_diags(ctx.rng, c, nsig=(1, 4), nstate=(0, 0), ninst=(0, 0), multi=True))
        if i % 9 == 0:
            c["plot_output"], c["export"] = "none", False
    core.run_cases(ctx, cases, CLAUSES)
