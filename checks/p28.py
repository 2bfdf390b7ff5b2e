"""P28: figures show what was recorded."""
import numpy as np

from vlib import derived, figures, simdrv

TR = "INIT TInit\nNEXT FNext\nVIEW TView\n"


def run(ctx):
    from . import core
    core.buffer_model(ctx, "NoErr RecTrue RecDone ExportTrue SnapDone")
    cases = [figures.gen_sim(ctx.rng, i, str(ctx.scratch / f"run{i}")) for i in range(ctx.n(110, 900))]
    cases += [figures.gen_arrays(ctx.rng, i, str(ctx.scratch / f"arr{i}")) for i in range(ctx.n(80, 600))]
    simdrv.warm()
    kept, traces = [], []
    for c, (st, val) in zip(cases, simdrv.pmap(figures.run_case, cases)):
        if st == "raised":
            ctx.violate("raised", f"{c.get('derived') or c.get('arrays')}: {val}"[:900], {"case": c, "raised": val})
        else:
            kept.append(c)
            traces.append(val)
    figs = 0
    for c, tr, v in zip(kept, traces, ctx.judge("FiguresTrace", [t["trace"] for t in traces], cfg=TR)):
        figs += sum(len(f) for f in tr["trace"]["obs"].get("figs", [])) + len(tr["trace"]["obs"].get("fig", []))
        for what, q in v["fails"]:
            d = c["derived"][q - 1] if q else c.get("arrays")
            o = tr["trace"]["obs"]
            ctx.violate(what, f"{d}: {o['figs'][q - 1] if q else o}"[:900], {"case": c, "trace": tr, "fails": v["fails"]})
        if c["what"] == "sim":
            for d, seen, want in zip(c["derived"], tr["lines"], v["spectra"]):
                if d["kind"] == "spec" and c["plot_output"] in ("pdf", "svg"):
                    w = derived.spectrum(c, d, want)
                    if len(seen) != 1 or len(seen[0]) != len(w) or not np.allclose(seen[0], w, rtol=1e-6, atol=1e-9 * (1 + np.max(np.abs(w)))):
                        ctx.violate("spectrum", f"{d}: shown {seen}, should be {w.tolist()}"[:900], {"case": c, "trace": tr})
        ctx.sample({"figures of": [d["kind"] for d in c["derived"]] if c["what"] == "sim" else [a["kind"] for a in c["arrays"]], "fails": v["fails"]})
    ctx.notes["figures"] = figs
