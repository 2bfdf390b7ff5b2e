"""P15: a phase counter is in the right phase at each sample."""
import numpy as np

from vlib.ctx import limited

CFG = """INIT MCInit
NEXT MCNext
CONSTANTS MaxPhases = {mp}
 Lengths <- SmallLengths
 Steps = {steps}
INVARIANTS InInterval FirstOnce Ordered Emit
"""
TR = """INIT TInit
NEXT TNext
VIEW TView
CONSTANTS MaxPhases = 0
 Lengths = {0}
 Steps = 0
"""


def drive(lens, steps, inf):
    from aspsim.counter import PhaseCounter
    names = [f"phase {k}" for k in range(len(lens))]
    pc = PhaseCounter({nm: (inf if x < 0 else x) for nm, x in zip(names, lens)})
    out = []
    for k in range(steps + 1):
        p = pc.phase
        q = 0 if p is None else (names.index(p) + 1 if p in names else -1)
        same = all(pc.current_phase_is(nm) == (nm == p) for nm in names)
        out.append([q, bool(pc.first_sample), bool(same)])
        if k < steps:
            pc.progress()
    return out


def run(ctx):
    r = ctx.model("Phases", CFG.format(mp=ctx.n(4, 5), steps=ctx.n(9, 12)))
    ctx.exhaustive = True
    for k, o in enumerate(r.out):
        got = limited(drive, o["len"], len(o["hist"]) - 1, -1 if k % 2 else np.inf)
        want = [[h[0], h[1], True] for h in o["hist"]]
        if got != want:
            ctx.violate("phase", f"phases of lengths {o['len']} (-1 is infinite): got {got}, should be {want}",
                        {"lengths": o["len"], "got": got, "want": want})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    traces = []
    for i in range(ctx.n(60, 600)):
        lens = [int(x) for x in ctx.rng.choice([0, 1, 2, 5, 13, 40, 97], size=int(ctx.rng.integers(0, 9)))]
        if i % 3 == 0:
            lens.insert(int(ctx.rng.integers(0, len(lens) + 1)), -1)
        traces.append({"len": lens, "hist": limited(drive, lens, int(ctx.rng.integers(20, 260)), np.inf if i % 2 else -1)})
    for tr, v in zip(traces, ctx.judge("PhasesTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f[0], f"phases of lengths {tr['len']} at sample {f[1]}", {"lengths": tr["len"], "got": tr["hist"]})
        ctx.sample({"lengths": tr["len"], "samples": len(tr["hist"]), "fails": v["fails"]})
