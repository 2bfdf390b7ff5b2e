"""P16: an event happens at exactly the samples its frequency and offset say, in the order of definition."""
from vlib.ctx import limited

CFG = """INIT MCInit
NEXT MCNext
CONSTANTS Freqs = {freqs}
 Offs = {offs}
 Steps = {steps}
INVARIANTS Congruent NotEarly Emit
"""
TR = """INIT TInit
NEXT TNext
VIEW TView
CONSTANTS Freqs = {0}
 Offs = {0}
 Steps = 0
"""


def drive(defs, ops):
    """ops: None is a sample, a list is a new definition."""
    from aspsim.counter import EventCounter
    given = {d[0]: (d[1], d[2]) for d in defs}
    ec, other = EventCounter(given), EventCounter(given)
    hist = []
    for op in ops:
        if op is None:
            ec.progress()
            hist.append({"op": "progress", "d": [], "due": list(ec.event)})
        else:
            ec.add_event(op[0], op[1], op[2])
            other.add_event("event of another counter", 1, 0)
            other.progress()
            hist.append({"op": "add", "d": list(op), "due": list(ec.event)})
    return hist


def run(ctx):
    freqs, offs = ("{1,2,3}", "{0,1,2,4}") if not ctx.thorough else ("{1,2,3,5}", "{0,1,2,3,4,7}")
    r = ctx.model("Events", CFG.format(freqs=freqs, offs=offs, steps=ctx.n(5, 7)))
    ctx.exhaustive = True
    for o in r.out:
        got = limited(drive, o["ini"], [None if h["op"] == "progress" else h["d"] for h in o["hist"]])
        if got != o["hist"]:
            ctx.violate("events", f"events {o['ini']}: got {got}, should be {o['hist']}", {"got": got, "model": o})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    traces = []
    rng = ctx.rng
    for i in range(ctx.n(80, 800)):
        names = [f"event_{k}" for k in rng.permutation(int(rng.integers(0, 7)))]
        mk = lambda nm: [nm, int(rng.choice([1, 2, 3, 7, 16, 60, 256])), int(rng.choice([0, 1, 2, 5, 30, 300]))]  # noqa: E731
        defs = [mk(nm) for nm in names]
        ops = []
        for _ in range(int(rng.integers(20, 400))):
            ops.append(None if rng.random() < 0.97 or i % 2 else mk(str(rng.choice(names + ["late", "later"]))))
        traces.append({"defs": defs, "hist": limited(drive, defs, ops)})
    for tr, v in zip(traces, ctx.judge("EventsTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f[0], f"events {tr['defs']} at step {f[1]}", tr)
        ctx.sample({"defs": tr["defs"], "steps": len(tr["hist"]), "fails": v["fails"]})
