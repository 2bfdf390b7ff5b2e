"""P18: regions of a room."""
import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap, BAD

MC = """INIT MCInit
NEXT MCNext
CONSTANTS MaxLen = {l}
 MaxGap = {g}
INVARIANTS AllInside Symmetric Spaced Reaches NoGap Counted Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def make(g, unit, dims, rng):
    """The region of the code for a region of the specification; None if there is no such kind."""
    from aspsim.room import region as R
    c, ln, d = [[x * unit for x in g[k]] for k in ("c", "len", "d")]
    r = g["r"] * unit
    flat = g["len"][2] == 0
    kw = {"rng": rng} if rng is not None else {}
    if d[:2 if flat else 3] != [1.] * (2 if flat else 3):     # the spacing is one metre if nothing is said
        kw["point_spacing"] = d[:2 if flat else 3]
    if flat and dims == 2:
        kw["spatial_dim"] = 2
    if g["shape"] == "box":
        if flat:
            return R.Rectangle(ln[:2], c[:dims], **kw)
        return R.Cuboid(ln, **(kw if not any(c) else dict(kw, center=c)))
    if g["shape"] == "tube":
        if flat:
            return R.Disc(r, c[:dims], **kw)
        return R.Cylinder(r, ln[2], **(kw if not any(c) else dict(kw, center=c)))
    return R.Ball(r, c, **kw)


def ints(points, unit, dims, cz, exact=True):
    a = np.asarray(points, dtype=float) / unit
    if a.ndim != 2 or a.shape[1] != dims:
        return [[BAD] * 3]
    r = np.round(a)
    if exact:
        r = np.where(np.abs(a - r) < 1e-6, r, BAD)
    r = np.where(np.abs(r) < 2e9, r, BAD).astype(int)
    if dims == 2:
        r = np.concatenate([r, np.full((len(r), 1), cz)], axis=1)
    return r.tolist()


def ask(case):
    from aspsim.room import region as R
    unit, dims, fine = case["unit"], case["dims"], case["fine"]
    cz = case["regs"][0]["c"][2]
    tr = {"regs": case["regs"], "fine": fine, "grid": [], "queries": [], "samples": [], "refused": False, "gridagain": True}

    def build(seed):
        subs = [make(g, unit, dims, np.random.default_rng([seed, k])) for k, g in enumerate(case["regs"])]
        if len(subs) == 1:
            return subs[0]
        if case["nested"] and len(subs) == 3:
            subs = [R.CombinedRegion(subs[:2], rng=np.random.default_rng([seed, 8])), subs[2]]
        return R.CombinedRegion(subs, rng=np.random.default_rng([seed, 9]))
    try:
        reg = limited(build, case["seed"])
    except AssertionError:
        if len(case["regs"]) == 1:
            raise
        tr["refused"] = True
        return tr
    np.random.seed(1)
    grid = limited(reg.equally_spaced_points)
    tr["grid"] = ints(grid, unit, dims, cz)
    if case["seed"] % 2 and len(case["regs"]) == 1 and case["regs"][0]["shape"] == "box" and case["regs"][0]["len"][2]:
        # another spacing, for this time only; or one for all directions
        g = case["regs"][0]
        wide = make(g | {"d": g["len"]}, unit, dims, np.random.default_rng(1))
        d = [x * unit for x in g["d"]]
        tr["grid"] = ints(limited(wide.equally_spaced_points, [d[0] if len(set(d)) == 1 else d, np.array(d), tuple(d)][case["seed"] % 3]), unit, dims, cz)
    for pad, pts in case["queries"]:
        p = np.array(pts, dtype=float)[:, :dims] * unit
        before = p.copy()
        if any(pad):
            ans = reg.is_in_region(p, padding=[[x * unit for x in pad[:2 if case["regs"][0]["len"][2] == 0 else 3]]])
        else:
            ans = reg.is_in_region(p)
        ans = np.asarray(ans)
        if ans.shape != (len(pts),) or not np.array_equal(p, before):
            raise ValueError(f"shape of the answer {ans.shape}")
        tr["queries"] += [{"p": list(q), "pad": list(pad), "ans": bool(a)} for q, a in zip(pts, ans)]
    other = build(case["seed"])
    np.random.seed(2)
    other.equally_spaced_points()
    drawn = []
    for num in case["draw"]:
        a, b = limited(reg.sample_points, num), limited(other.sample_points, num)
        tr["samples"].append({"asked": num, "xs": ints(a, unit / fine, dims, cz * fine, exact=False),
                              "again": bool(np.array_equal(a, b)), "fresh": True})
        drawn.append(np.asarray(a, dtype=float).reshape(-1, dims))
    # no point is drawn twice, is the centre, or is drawn by another generator
    drawn += [limited(make(g, unit, dims, None).sample_points, 3) for g in case["regs"]]
    try:
        drawn.append(limited(build(case["seed"] + 1).sample_points, 9))
    except AssertionError:
        if len(case["regs"]) == 1:      # a slight overlap is found or not, as the points are drawn
            raise
    drawn += [np.array([g["c"]], dtype=float)[:, :dims] * unit for g in case["regs"]]
    drawn = np.concatenate(drawn)
    own = len(np.unique(np.array([g["c"] for g in case["regs"]])[:, :dims], axis=0)) - len(case["regs"])
    tr["samples"][-1]["fresh"] = bool(len(np.unique(drawn, axis=0)) == len(drawn) + own)
    tr["gridagain"] = bool(np.array_equal(grid, limited(reg.equally_spaced_points)))
    return tr


def lattice(rng, regs, count):
    """Points around, inside, and on the borders."""
    out = []
    for _ in range(count):
        g = regs[rng.integers(len(regs))]
        p = []
        for a in range(3):
            half = g["len"][a] // 2
            p.append(int(g["c"][a] + [rng.integers(-half - 3, half + 4), half, -half, half + 1, -half - 1, 0][rng.choice(6, p=[.6, .1, .1, .07, .07, .06])]))
        if rng.random() < .3 and g["len"][2] == 0:
            p[2] = g["c"][2]
        out.append(p)
    return out


def rand_region(rng, flat, big, fewer):
    shape = ["box", "tube", "ball"][rng.integers(2 if flat else 3)]
    ev = lambda lo, hi: 2 * int(rng.integers(lo, hi + 1))
    c = [int(x) for x in rng.integers(-20, 21, 3)]
    lo = 4 if fewer else 2
    d = [ev(lo, lo + 3) for _ in range(3)]
    if shape == "box":
        ln = [max(d[a], ev(1, big)) for a in range(3)]
        r, rule = 0, "fit"
    else:
        r = max(ev(1, big // 2), max(d) // 4 * 2 + 2)
        ln = [2 * r, 2 * r, 2 * r if shape == "ball" else ev(1, big)]
        rule = "fit" if shape == "ball" else "cover"
    if flat:
        ln[2] = 0
    return {"shape": shape, "c": c, "len": ln, "r": r, "d": d, "rule": rule}


def cases(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.n(140, 1200)):
        flat = i % 3 == 0
        dims = 2 if flat and i % 2 else 3
        unit = float([1.0, 0.5, 0.125, 0.0625][rng.integers(4)])
        if i % 4 < 2:
            regs = [rand_region(rng, flat, 22, False)]
            if rng.random() < .3 and not flat:
                regs[0]["d"] = [min(regs[0]["d"])] * 3
            elif rng.random() < .3:
                g = regs[0]
                unit = [.5, .25][i % 2]
                g["d"] = [int(1 / unit)] * 3
                g["len"] = [max(x, int(1 / unit)) if x else 0 for x in g["len"]]
                if rng.random() < .5:
                    g["c"] = [0, 0, 0]
                if g["shape"] != "box":
                    g["r"] = max(g["r"], int(1 / unit))
                    g["len"] = [2 * g["r"]] * 2 + [2 * g["r"] if g["shape"] == "ball" else g["len"][2]]
        else:
            regs = [rand_region(rng, flat, 12, True) for _ in range(int(rng.integers(2, 4)))]
            if rng.random() < .5:
                if rng.random() < .5:
                    regs = [g if g["shape"] == "box" else rand_region(rng, flat, 12, True) for g in regs]
                for g in regs:
                    g["c"] = [x // 2 for x in g["c"]]
            else:      # apart from each other
                for k, g in enumerate(regs):
                    g["c"][0] += 70 * k * (1 if rng.random() < .5 else -1) if k < 2 else 300
            if flat:
                for g in regs:
                    if dims == 2 or rng.random() < .6:
                        g["c"][2] = regs[0]["c"][2]
        if dims == 2:
            for g in regs:
                g["c"][2] = regs[0]["c"][2]
        qs = [[[0, 0, 0], lattice(rng, regs, 60)]]
        if dims == 2:
            for q in qs[0][1]:
                q[2] = regs[0]["c"][2]
        if len(regs) == 1 and regs[0]["shape"] == "box":
            # a flat box is not widened across its plane
            pad = [int(x) for x in rng.integers(1, 5, 3)]
            if flat:
                pad[2] = 0
            pts = lattice(rng, regs, 40)
            if dims == 2:
                for q in pts:
                    q[2] = regs[0]["c"][2]
            qs.append([pad, pts])
        out.append({"regs": regs, "unit": unit, "dims": dims, "fine": 32, "queries": qs, "nested": bool(rng.random() < .5),
                    "seed": int(rng.integers(1 << 30)), "draw": [0 if len(regs) == 1 else 5, 1, 37, 1500] if i % 2 else [3, 1200]})
    return out


def run(ctx):
    r = ctx.model("Regions_MC", MC.format(l=ctx.n(4, 6), g=ctx.n(2, 3)))
    ctx.exhaustive = True
    bad = 0
    for o in r.out:
        g = o["reg"]
        reg = make(g, 0.25, 3, np.random.default_rng(1))
        got = ints(limited(reg.equally_spaced_points), 0.25, 3, 0)
        if sorted(map(tuple, got)) != sorted(map(tuple, o["grid"])):
            ctx.violate("grid " + g["shape"], f"{g}: {len(got)} points {got[:5]}, should be {len(o['grid'])}: {o['grid'][:5]}", {"model": o, "got": got})
            bad += 1
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    todo = cases(ctx)
    kept, traces = [], []
    for case, (st, val) in zip(todo, pmap(ask, todo)):
        kinds = "+".join(sorted({g["shape"] for g in case["regs"]}))
        if st == "raised":
            ctx.violate("raised " + kinds, f"{case['regs']}: {val}", case)
        else:
            kept.append(case)
            traces.append(val)
    for case, tr, v in zip(kept, traces, ctx.judge("RegionsTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f"{f} " + "+".join(sorted({g["shape"] for g in case["regs"]})), f"{case['regs']} dims {case['dims']}", {"case": case, "trace": tr})
        ctx.sample({"regions": case["regs"], "grid": len(tr["grid"]), "queries": len(tr["queries"]), "refused": tr["refused"], "fails": v["fails"]})
    ctx.notes["combined"] = sum(len(c["regs"]) > 1 for c in todo)
    ctx.notes["refused"] = sum(t["refused"] for t in traces)
