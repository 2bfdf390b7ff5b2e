"""The checks that run whole simulations against AspSim."""
from vlib import simdrv

MODEL = """INIT MCInit
NEXT MCNext
CONSTANTS MaxB = {MaxB}
 ExtraBuf = {ExtraBuf}
 ExtraChunk = {ExtraChunk}
 Tots = {Tots}
 Slack = {Slack}
INVARIANTS {inv}
"""
ALL_INV = "View Causal NoErr Depth Sync CallsAgree RecTrue RecDone ExportTrue SnapDone"


def buffer_model(ctx, inv=ALL_INV):
    """The finite-buffer realisation agrees with the ideal machine on all small configurations."""
    if ctx.thorough:
        ctx.model("AspSimBuf_MC", MODEL.format(MaxB=3, ExtraBuf=3, ExtraChunk=5, Tots="{1,3,4,6,7}", Slack=0, inv=inv))
    else:
        ctx.model("AspSimBuf_MC", MODEL.format(MaxB=2, ExtraBuf=1, ExtraChunk=3, Tots="{3,4}", Slack=0, inv=inv))
    # the model is not vacuous: with a buffer that is too small the same invariant fails
    ctx.model("AspSimBuf_MC", MODEL.format(MaxB=1, ExtraBuf=0, ExtraChunk=1, Tots="{3}", Slack=1, inv="RecTrue"),
              expect_violation="RecTrue")


def run_cases(ctx, cases, clauses, module="AspSimTrace"):
    """Run the cases in the real simulator, let TLC judge them, report failures of the given clauses."""
    simdrv.warm()
    res = simdrv.pmap(simdrv.run_case, cases)
    traces, owner = [], []
    for case, (st, val) in zip(cases, res):
        if st == "raised":
            ctx.violate("raised", f"the simulation raised {val}", {"case": case, "raised": val})
        else:
            traces.append(val)
            owner.append(case)
    if not traces:
        return
    verdicts = ctx.judge(module, traces)
    ncalls = 0
    for case, tr, v in zip(owner, traces, verdicts):
        ncalls += len(tr["obs"]["calls"])
        bad = [f for f in v["fails"] if f[0] in clauses]
        for f in bad:
            ctx.violate(f[0], f"clause '{f[0]}' fails at {f[1]} for {simdrv.describe(case)}",
                        {"case": case, "fails": v["fails"]})
        ctx.sample({"case": simdrv.describe(case), "calls": len(tr["obs"]["calls"]), "fails": v["fails"]})
    ctx.notes["processor_calls_compared"] = ctx.notes.get("processor_calls_compared", 0) + ncalls
    ctx.notes["rollovers"] = ctx.notes.get("rollovers", 0) + sum(max(0, c["tot"] // c["C"]) for c in owner)
    ctx.assumptions += ["a processor needs sim_buffer >= 2 block sizes and sim_chunk_size >= 1 block size; "
                        "without a processor sim_buffer >= 2"] if not ctx.assumptions else []


def replay_behaviours(ctx, n):
    """Finished behaviours of AspSimBuf, replayed in the real simulator: everything the model says must be seen."""
    big = dict(MaxB=2, ExtraBuf=2, ExtraChunk=4, Tots="{3,5,6}") if ctx.thorough else \
        dict(MaxB=2, ExtraBuf=1, ExtraChunk=3, Tots="{3,4}")
    r = ctx.model("AspSimBuf_MC", MODEL.format(**big, Slack=0, inv="NoErr RecDone SnapDone Emit"))
    ends = sorted(r.out, key=str)
    if len(ends) > n:
        ends = [ends[k] for k in sorted(ctx.rng.choice(len(ends), size=n, replace=False))]
    cases = [simdrv.case_of_model(e["cfg"], k) for k, e in enumerate(ends)]
    for k, c in enumerate(cases):
        c["folder"] = str(ctx.scratch / f"model{k}")
    simdrv.warm()
    for e, c, (st, val) in zip(ends, cases, simdrv.pmap(simdrv.run_case, cases)):
        if st == "raised":
            ctx.violate("raised", f"the simulation raised {val}", {"case": c, "raised": val})
            continue
        o = val["obs"]
        seen = {"calls": len(o["calls"]), "rec": [[x[0], x[1]] for x in o["rec"][0]],
                "out": [[f["k"], len(f["v"][0])] for f in o["files"][0]],
                "snap": [[x["ti"] + 1, x["v"]] for x in o["snaps"][0]] if o["snaps"] else []}
        want = {"calls": e["calls"], "rec": [[x[0], x[1]] for x in e["rec"]], "out": [list(x) for x in e["out"]],
                "snap": [[x["i"], x["v"]] for x in e["snap"]]}
        for key in want:
            if seen[key] != want[key]:
                ctx.violate("model " + key, f"the model ends with {want[key]}, the simulator with {seen[key]}",
                            {"case": c, "model": want, "seen": seen})
    ctx.notes["model_behaviours_replayed"] = len(ends)
    ctx.traces += len(ends)
