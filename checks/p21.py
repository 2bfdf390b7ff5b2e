"""P21: diagnostics that are derived from signals and states."""
import numpy as np

from vlib import derived, simdrv
from . import core

TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def run(ctx):
    core.buffer_model(ctx, "NoErr RecTrue RecDone SnapDone")
    cases = [derived.gen(ctx.rng, i, str(ctx.scratch / f"run{i}")) for i in range(ctx.n(260, 2500))]
    simdrv.warm()
    kept, traces = [], []
    for c, (st, val) in zip(cases, simdrv.pmap(derived.run_case, cases)):
        if st == "raised":
            ctx.violate("raised", f"{simdrv.describe(c)} {c['derived']}: {val}"[:900], {"case": c, "raised": val})
        else:
            kept.append(c)
            traces.append(val)
    many = {}
    for c, tr, v in zip(kept, traces, ctx.judge("DerivedTrace", [t["trace"] for t in traces], cfg=TR)):
        for d in c["derived"]:
            many[d["kind"]] = many.get(d["kind"], 0) + 1
        for what, q in v["fails"]:
            d = c["derived"][q - 1] if q else None
            ctx.violate(what, f"{simdrv.describe(c)} {d}: {tr['trace']['obs']['got'][q - 1] if q else tr['trace']['obs']['extra']}"[:900],
                        {"case": c, "trace": tr, "fails": v["fails"]})
        for d, got, want in zip(c["derived"], tr["spectra"], v["spectra"]):
            if d["kind"] == "spec":
                w = derived.spectrum(c, d, want)
                if np.shape(got) != w.shape or not np.allclose(got, w, rtol=1e-6, atol=1e-9 * (1 + np.max(np.abs(w)))):
                    ctx.violate("spectrum", f"{simdrv.describe(c)} {d}: got {got}, should be {w.tolist()}"[:900], {"case": c, "trace": tr})
        ctx.sample({"case": simdrv.describe(c), "kinds": [d["kind"] for d in c["derived"]], "fails": v["fails"]})
    ctx.notes["diagnostics"] = many
    ctx.assumptions += ["Quotients of powers are judged where the smoothed denominator is not zero."]
