"""P25: pictures of sound fields."""
import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap, BAD

MC = """INIT MCInit
NEXT Next
CONSTANTS MaxPts = {p}
 MaxSide = {s}
INVARIANTS Rectangular Once Upright Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def whole(a, unit=1):
    a = np.asarray(a, dtype=float) / unit
    r = np.round(a)
    return np.where(np.isfinite(a) & (np.abs(a - r) < 1e-4) & (np.abs(r) < 1e9), r, BAD).astype(int).tolist()


def ask(c):
    import matplotlib.pyplot as plt
    import aspsim.array as ar
    import aspsim.diagnostics.soundfieldplot as sfp
    u, full = c["unit"], np.array(c["full"], dtype=float)
    jit = np.random.default_rng(c["seed"]).uniform(-1, 1, full.shape) * c["jitter"]
    jit[:, 2:] = 0
    pos, sig = full * u + jit, np.array(c["sig"], dtype=float)
    pos0, sig0 = pos.copy(), sig.copy()
    one = c["flat"] and sig.shape[1] == 1
    kw = {} if c["decimals"] == 5 else {"pos_decimals": c["decimals"]}
    tr = {"pts": [f[:2] for f in c["full"]], "full": c["full"], "sig": c["sig"], "plots": [], "others": c["others"], "clim": c["clim"]}
    tr["num"] = [int(x) for x in sfp.get_num_pixels(pos, **kw)]
    shaped = sig.reshape((len(sig),) + tuple(c["shape"]))
    p, s = sfp.sort_for_imshow(pos, shaped, **kw)
    s = np.asarray(s)
    tr["pos"], tr["img"] = whole(p, u), whole(s.reshape(s.shape[:2] + (-1,)))
    if s.shape[2:] != tuple(c["shape"]):
        tr["img"] = []
    oth = np.array(c["others"], dtype=float).reshape(-1, 3)[:, :full.shape[1]] * u
    marks = {f"arr_{k}": ar.MicArray(f"arr_{k}", o[None]) for k, o in enumerate(oth)}
    lists = [p] + [o[None] for o in oth]
    tr["size"] = whole(sfp.size_of_2d_plot(lists), u)

    def seen(ax, which, title):
        im = ax.images[0]
        px = np.asarray(im.get_array())
        lines = {ln.get_label(): np.array(ln.get_xydata()) for ln in ax.lines}
        ok = all(n in lines and np.array_equal(lines[n], a.pos[:, :2]) for n, a in marks.items())
        org = getattr(im, "origin", "upper")
        return {"which": which, "pixels": whole(px.reshape(px.shape[:2])) if org == "upper" else [], "extent": whole(im.get_extent(), u),
                "clim": whole(im.get_clim()), "titled": ax.get_title() == title, "marked": ok and len(ax.lines) == len(marks)}
    try:
        how = c["plot"]
        if how == "one":
            fig, ax = plt.subplots()
            v = {} if not c["clim"] else {"vminmax": tuple(c["clim"])}
            given = {"dict": marks, "list": list(marks.values()), "none": None, "array": next(iter(marks.values()), None)}[c["as"]]
            sfp.sf_plot(ax, p, s.reshape(s.shape[:2] + (-1,))[:, :, c["which"] - 1] if not one else s.reshape(s.shape[:2] + (1,)), "a title", given, **v)
            if c["as"] == "array":
                marks = dict(list(marks.items())[:1])
            if c["as"] == "none":
                marks = {}
            tr["plots"].append(seen(ax, c["which"], "a title"))
        elif how == "compare":
            na, nx = c["algos"], sig.shape[1] // c["algos"]
            data = sig.T.reshape(na, nx, -1)
            sfp.compare_soundfields(pos, data if c["as"] == "array" else list(data), [f"algo{i}" for i in range(na)], [f"row{j}" for j in range(nx)], marks)
            axes = [a for a in plt.gcf().axes if a.images and a.get_title()]
            if len(axes) != na * nx:
                tr["plots"] = [{"which": 1, "pixels": [], "extent": [], "clim": [], "titled": False, "marked": False}]
            else:
                for k, a in enumerate(axes):
                    g = a.get_subplotspec().get_topmost_subplotspec()
                    k = g.rowspan.start * nx + g.colspan.start
                    tr["plots"].append(seen(a, k + 1, f"algo{k // nx}, row{k % nx}"))
    finally:
        plt.close("all")
    if not np.array_equal(pos, pos0) or not np.array_equal(sig, sig0):
        raise ValueError("an argument changed")
    return tr


def make_cases(ctx):
    rng = ctx.rng
    out = []
    for t in range(ctx.n(120, 1200)):
        w, h = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        xs = np.cumsum(rng.integers(1, 4 if t % 3 else 2, w)) + int(rng.integers(-12, 5))
        ys = np.cumsum(rng.integers(1, 4 if t % 3 else 2, h)) + int(rng.integers(-12, 5))
        z = int(rng.integers(-3, 4))
        dims = int(rng.choice([2, 3]))
        full = [[int(x), int(y), z][:dims] for y in ys for x in xs]
        order = rng.permutation(len(full)) if t % 4 else np.arange(len(full))[::int(rng.choice([1, -1]))]
        full = [full[k] for k in order]
        unit, dec = [(1, 5), (.1, 5), (.01, 5), (1e-3, 5), (.5, 1), (.1, 2), (1 / 3, 5)][int(rng.integers(7))]
        shape = [[1], [2], [4], [2, 3], [1, 2]][int(rng.integers(5))]
        plot = ["none", "one", "compare"][t % 3] if w > 1 and h > 1 else "none"
        n = int(np.prod(shape))
        sig = rng.integers(-50, 50, (len(full), n)).tolist()
        others = rng.integers(-15, 15, (int(rng.integers(0, 4)), 3)).tolist() if plot != "none" else []
        how = str(rng.choice(["dict", "list", "none", "array"]))
        if how == "array" and not others:
            how = "none"
        algos = int(rng.choice([k for k in range(1, n + 1) if n % k == 0]))
        out.append({"full": full, "sig": sig, "unit": unit, "decimals": dec, "shape": shape, "plot": plot, "others": others, "as": how,
                    "clim": [-60, 70] if plot == "one" and rng.random() < .5 else [], "which": int(rng.integers(n)) + 1, "algos": algos,
                    "jitter": 0 if t % 2 else unit * 1e-6 if dec == 5 and unit < .3 else 0, "flat": bool(rng.random() < .5), "seed": int(rng.integers(2 ** 31))})
    return out


def run(ctx):
    import aspsim.diagnostics.soundfieldplot as sfp
    r = ctx.model("Picture_MC", MC.format(p=ctx.n(6, 8), s=ctx.n(3, 4)))
    ctx.exhaustive = True
    for o in r.out:
        pts, pic = np.array(o["pts"], dtype=float), np.array(o["pic"]) - 1
        p, s = limited(sfp.sort_for_imshow, pts * .1, np.arange(len(pts))[:, None])
        if not np.array_equal(s[..., 0], pic) or not np.allclose(p, pts[pic[::-1]] * .1):
            ctx.violate("model picture", f"{o}: got {np.asarray(s)[..., 0].tolist()}", {"model": o})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    todo, kept, traces = make_cases(ctx), [], []
    for c, (st, val) in zip(todo, pmap(ask, todo)):
        if st == "raised":
            ctx.violate("raised " + c["plot"], f"{c}: {val}"[:600], c)
        else:
            kept.append(c)
            traces.append(val)
    for c, tr, v in zip(kept, traces, ctx.judge("PictureTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f, f"{c}: {str(tr)[:300]}", {"case": c, "trace": tr})
        ctx.sample({"asked": {k: c[k] for k in ("full", "unit", "plot")}, "fails": v["fails"]})
    ctx.notes["plots"] = sum(len(t["plots"]) for t in traces)
