"""P22: generators of point positions."""
import math

import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap, BAD

MC = """INIT MCInit
NEXT Next
CONSTANTS MaxLen = {l}
 MaxNum = {n}
 Den = {d}
INVARIANTS Numbered Count Even OnEdge Fair Turned Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def whole(a, scale):
    """Whole numbers for what is a multiple of 1/scale."""
    a = np.asarray(a, dtype=float) * scale
    r = np.round(a)
    return np.where(np.isfinite(a) & (np.abs(a - r) < 1e-5) & (np.abs(r) < 1e9), r, BAD).astype(int).tolist()


def three(p, z):
    """Points with a height: the given one where the code gave only two coordinates as asked."""
    p = np.asarray(p, dtype=float)
    want = 2 if z is None else 3
    if p.ndim != 2 or p.shape[1] != want:
        raise ValueError(f"shape {p.shape}")
    return p if z is not None else np.concatenate([p, np.zeros((len(p), 1))], axis=1)


def ask(c):
    import aspsim.room.generatepoints as gp
    k = c["kind"]
    if k == "rect":
        w, u = c["w"], c["unit"]
        z = None if c["noz"] else w["z"] * u
        ex = [w["ex"] * u, w["ey"] * u]
        if c["scalar"]:
            ex = ex[0]
        pts = gp.equidistant_rectangle(w["num"], (w["a"] * u, w["b"] * u), extra_side_lengths=ex, offset=w["on"] / w["od"], z=z)
        return {"kind": "walks", "walks": [{"w": w, "alt": [], "pts": whole(three(pts, z), 2 * w["num"] * w["od"] / u)}]}
    if k == "four":
        w, u = c["w"], c["unit"]
        pts = gp.four_equidistant_rectangles(w["num"], w["a"] * u, w["ex"] * u / 2, c["alt"][0] * u, c["alt"][1] * u)
        return {"kind": "walks", "walks": [{"w": w, "alt": c["alt"], "pts": whole(three(pts, 0), 2 * w["num"] * w["od"] / u)}]}
    if k == "stacked":
        u, n = c["unit"], len(c["walks"])
        pts = three(gp.stacked_equidistant_rectangles(c["num"], n, (c["walks"][0]["a"] * u, c["walks"][0]["b"] * u), c["dz"] * u), 0)
        out, at = [], 0
        for w in c["walks"]:
            part = pts[at:at + w["num"]] if w is not c["walks"][-1] else pts[at:]
            at += w["num"]
            out.append({"w": w, "alt": [], "pts": whole(part, 2 * w["num"] * w["od"] / u)})
        return {"kind": "walks", "walks": out}
    if k == "circles":
        u = c["unit"]
        cs = c["circles"]
        if c["one"]:
            q = cs[0]
            z = None if c["noz"] else q["z"] * u
            rad = (q["lo"] * u, q["hi"] * u) if c["range"] else q["lo"] * u
            circle = lambda r: three(gp.equiangular_circle(q["num"], rad, 2 * math.pi * q["start"] / c["turn"], z, rng=r), z)
            pts = circle(np.random.default_rng(3))
            if c["range"]:
                if not np.array_equal(pts, circle(np.random.default_rng(3))):
                    raise ValueError("the same generator gives other radii")
                if any(np.array_equal(pts[:, :2], circle(r)[:, :2]) for r in (np.random.default_rng(4), None)):
                    raise ValueError("another generator gives the same radii")
                if len(set(np.round(np.hypot(pts[:, 0], pts[:, 1]), 12))) < q["num"]:
                    raise ValueError("radii are not drawn for each point")
        else:
            z = None if c["noz"] else c["dz"] * u
            rad = (cs[0]["lo"] * u, cs[0]["hi"] * u) if c["range"] else cs[0]["lo"] * u
            pts = three(gp.concentrical_circles(c["num"], len(cs), rad, z, c["mode"]), z)
        out, at = [], 0
        for j, q in enumerate(cs):
            part = pts[at:at + q["num"]] if j + 1 < len(cs) else pts[at:]
            at += q["num"]
            ang = np.mod(np.arctan2(part[:, 1], part[:, 0]) / (2 * math.pi) * c["turn"], c["turn"])
            ang = np.where(np.abs(ang - c["turn"]) < 1e-6, 0.0, ang)
            if not c["one"] and c["mode"] in ("random", "almostSame") and len(ang):
                # turned by any angle, or by a tenth of the way to the next point
                if c["mode"] == "almostSame" and ang[0] > c["turn"] / cs[0]["num"] / 10:
                    raise ValueError(f"turned by {ang[0]} of {c['turn']}")
                ang = np.mod(ang - ang[0], c["turn"])
                ang = np.where(np.abs(ang - c["turn"]) < 1e-6, 0.0, ang)
            r = np.hypot(part[:, 0], part[:, 1]) / u
            seen = [[a, b, d] for a, b, d in zip(whole(ang, 1), whole(r, 1) if not c["range"] else np.round(r).astype(int).tolist(), whole(part[:, 2] / u, 1))]
            out.append(dict(q, pts=seen))
        return {"kind": "circles", "turn": c["turn"], "circles": out}
    if k == "grid":
        u, ax = c["unit"], c["axes"]
        z = None if c["noz"] else ax[2]["lo"] * u
        if c["how"] == "rect":
            lim = (ax[0]["lo"] * u, ax[0]["hi"] * u) if c["square"] else (ax[0]["lo"] * u, ax[1]["lo"] * u, ax[0]["hi"] * u, ax[1]["hi"] * u)
            pts = three(gp.uniform_filled_rectangle(ax[0]["n"] ** 2, lim, z), z)
        elif c["how"] == "disc":
            pts = three(gp.uniform_disc(c["dist"] * u, ax[0]["hi"] * u, z), z)
        else:
            pts = gp.uniform_filled_cuboid(ax[0]["n"] ** 2 * ax[2]["n"], [2 * a["hi"] * u for a in ax], ax[2]["n"])
        cols = []
        for j, a in enumerate(ax):
            flat = j == 2 and c["how"] != "cuboid"
            cols.append(whole(pts[:, j] / u, 2 if flat else (a["n"] - 1 if a["edge"] else 2 * a["n"])))
        ax = [dict(a) for a in ax]
        if c["how"] != "cuboid":
            ax[2] = {"lo": ax[2]["lo"], "hi": ax[2]["lo"], "n": 3, "edge": True}
        return {"kind": "grid", "axes": ax, "disc": c["how"] == "disc", "pts": [list(p) for p in zip(*cols)]}
    if k == "sunflower":
        off = c["off"] / 1e6 * 2 * math.pi
        pts = np.asarray(gp.sunflower_pattern(c["num"], c["r"], off) if c["off"] or c["r"] % 2 else gp.sunflower_pattern(c["num"], c["r"]))
        if pts.shape != (c["num"], 2):
            raise ValueError(f"shape {pts.shape}")
        ang = np.mod(np.round(np.arctan2(pts[:, 1], pts[:, 0]) / (2 * math.pi) * 1e6), 1e6).astype(int).tolist()
        return {"kind": "sunflower", "num": c["num"], "off": c["off"],
                "pts": [list(x) for x in zip(whole((pts[:, 0] ** 2 + pts[:, 1] ** 2) * (2 * c["num"] - 1) / c["r"] ** 2, 1), ang)]}
    if k == "planes":
        u = c["unit"]
        pts = np.asarray(gp.uniform_cylinder(c["num"], c["r"] * u, 10 * c["h"] * u))
        return {"kind": "planes", "each": c["num"] // 4, "r": c["r"] * 1000 + 1, "h": c["h"],
                "pts": [[int(math.ceil(math.hypot(x, y) / u * 1000 - 1e-3)), z] for (x, y), z in zip(pts[:, :2], whole(pts[:, 2] / u, 1))]}
    p = np.array(c["pts"], dtype=float)
    r, ang = gp.cart2spherical(p)
    r = np.asarray(r).reshape(-1)
    r0 = r.copy()
    back = gp.spherical2cart(r if c["flat"] else r[:, None], ang)
    pr, pa = gp.cart2pol(p[:, 0], p[:, 1])
    fx, fy = gp.pol2cart(pr, pa)
    if r.shape != (len(p),) or ang.shape != (len(p), 2) or not np.array_equal(r, r0) or not np.array_equal(p, c["pts"]):
        raise ValueError("shapes, or an argument changed")

    def mille(a):
        # thousandths of an eighth of a turn; a whole thousand only for a whole eighth
        v = np.mod(np.asarray(a) / (math.pi / 4) * 1000, 8000)
        n = np.round(v / 1000)
        near = np.abs(v - 1000 * n) < 1e-6
        f = np.floor(v)
        f = np.where(np.mod(f, 1000) == 0, f + 1, f)
        return (np.where(near, np.mod(1000 * n, 8000), f)).astype(int).tolist()
    out = []
    th, ph, po = mille(ang[:, 0]), mille(ang[:, 1]), mille(pa)
    for j in range(len(p)):
        out.append({"p": [int(x) for x in c["pts"][j]], "r2": whole(r[j] ** 2, 1), "s2": whole(pr[j] ** 2, 1), "theta": th[j], "polar": po[j],
                    "phi": ph[j], "back": whole(back[j], 1), "flat": whole([fx[j], fy[j]], 1)})
    return {"kind": "angles", "pts": out}


def make_cases(ctx):
    rng = ctx.rng
    R = lambda a, b: int(rng.integers(a, b + 1))
    out = []
    for t in range(ctx.n(160, 1500)):
        # exact lengths, where a corner may be hit: the spacing is a power of two over eight
        num, od = R(1, 40), int(rng.choice([1, 2, 4]))
        on = R(0, od)
        if t % 2:
            half = num * R(1, 4) * 4
            a = R(1, half - 1)
            w = {"a": a, "b": half - a, "num": num, "on": on, "od": od, "ex": 0, "ey": 0, "z": R(-4, 4)}
            unit = 0.125
            push = on < od
        else:
            num = R(1, 23)
            w = {"a": R(1, 40), "b": R(1, 40), "num": num, "on": on, "od": od, "ex": 0, "ey": 0, "z": R(-4, 4)}
            unit = 0.1
            circ = 2 * (w["a"] + w["b"])
            corners = [0, w["a"], w["a"] + w["b"], 2 * w["a"] + w["b"]]
            spots = {(i * od + on) * circ for i in range(num)}
            push = on < od and not any(x * num * od in spots for x in corners) and circ * num * od not in spots
        sc = bool(rng.random() < .3)
        if push and rng.random() < .8:
            w["ex"], w["ey"] = R(0, 6), R(0, 6)
            if sc:
                w["ey"] = w["ex"]
        elif sc:
            w["ey"] = w["ex"]
        noz = bool(rng.random() < .3)
        if noz:
            w["z"] = 0
        out.append({"kind": "rect", "w": w, "unit": unit, "noz": noz, "scalar": sc})
    for t in range(ctx.n(30, 200)):
        num, a = 4 * R(1, 8), R(1, 30)
        e = 2 * R(1, 5)
        out.append({"kind": "four", "unit": 0.125, "alt": [R(-4, 4), R(5, 9)],
                    "w": {"a": a, "b": a, "num": num, "on": 1, "od": 2, "ex": e, "ey": e, "z": 0}})
        n = R(1, 4)
        num = R(n, 30)
        a, b, dz = R(1, 30), R(1, 30), 2 * R(1, 5)
        walks = []
        for j in range(n):
            walks.append({"a": a, "b": b, "num": num // n + (1 if j < num % n else 0), "on": 2 * j + 1, "od": 2 * n, "ex": 0, "ey": 0,
                          "z": (2 * j - n + 1) * dz // 2 if n % 2 == 0 else (j - n // 2) * dz})
        out.append({"kind": "stacked", "unit": 0.1, "num": num, "dz": dz, "walks": walks})
    for t in range(ctx.n(40, 300)):
        n = R(1, 4)
        num = R(n, 17)
        rng_r = bool(rng.random() < .3)
        lo = R(1, 20)
        hi = lo + R(1, 20) if rng_r else lo
        noz = bool(rng.random() < .4)
        if t % 2:
            c = {"num": num, "start": R(0, 4 * num - 1), "lo": lo, "hi": hi, "z": 0 if noz else R(-5, 5)}
            out.append({"kind": "circles", "one": True, "turn": 4 * num, "circles": [c], "unit": 0.25, "noz": noz, "range": rng_r})
            continue
        per = [num // n + (1 if j < num % n else 0) for j in range(n)]
        mode = ["distribute", "same", "random", "distribute", "almostSame"][t // 2 % 5]
        turn = per[0] * n * math.lcm(*per)
        dz = 2 * R(1, 5)
        cs = [{"num": per[j], "start": (j * turn // (per[0] * n)) % turn if mode == "distribute" else 0, "lo": lo, "hi": hi,
               "z": 0 if noz else (2 * j - n + 1) * dz // 2 if n % 2 == 0 else (j - n // 2) * dz} for j in range(n)]
        out.append({"kind": "circles", "one": False, "turn": turn, "circles": cs, "unit": 0.25, "noz": noz, "range": rng_r, "dz": dz, "mode": mode, "num": num})
    for t in range(ctx.n(45, 300)):
        how = ["rect", "disc", "cuboid"][t % 3]
        noz = bool(rng.random() < .4) and how != "cuboid"
        z = 0 if noz else R(-4, 4)
        if how == "rect":
            n, sq = R(2, 6), bool(rng.random() < .5)
            lo, lo2 = R(-9, 9), R(-9, 9)
            ax = [{"lo": lo, "hi": lo + R(1, 9), "n": n, "edge": True}]
            ax.append(dict(ax[0]) if sq else {"lo": lo2, "hi": lo2 + R(1, 9), "n": n, "edge": True})
            ax.append({"lo": z, "hi": z, "n": 1, "edge": True})
            c = {"square": sq}
        elif how == "disc":
            n, d = 2 ** R(0, 3) + 1, R(1, 3)
            ax = [{"lo": -n * d, "hi": n * d, "n": n, "edge": True}] * 2 + [{"lo": z, "hi": z, "n": 1, "edge": True}]
            c = {"dist": 2 * d}
        else:
            n, nz = R(1, 5), R(1, 5)
            ax = [{"lo": -h, "hi": h, "n": k, "edge": False} for h, k in ((R(1, 9), n), (R(1, 9), n), (R(1, 9), nz))]
            c = {}
        out.append(dict(c, kind="grid", how=how, axes=ax, unit=0.125, noz=noz))
    for t in range(ctx.n(12, 60)):
        out.append({"kind": "sunflower", "num": R(1, 40), "r": R(1, 9), "off": R(0, 999999) * (t % 2)})
    for t in range(ctx.n(8, 40)):
        out.append({"kind": "planes", "num": R(0, 60), "r": R(1, 9), "h": R(1, 9), "unit": 0.125})
    for t in range(ctx.n(8, 60)):
        m = 3 if t % 2 else 40
        out.append({"kind": "angles", "pts": [[R(-m, m) for _ in range(3)] for _ in range(60)], "flat": bool(t % 3)})
    return out


def run(ctx):
    import aspsim.room.generatepoints as gp
    r = ctx.model("Points_MC", MC.format(l=ctx.n(4, 6), n=ctx.n(9, 16), d=ctx.n(2, 4)))
    ctx.exhaustive = True
    for o in r.out:
        w = o["w"]
        got = whole(limited(gp.equidistant_rectangle, w["num"], (w["a"] * .5, w["b"] * .5), offset=w["on"] / w["od"]), o["unit"] * 2)
        if sorted(got) != sorted(list(p) for p in o["pts"]):
            ctx.violate("model rectangle", f"{w}: got {got}, should be {o['pts']}", {"model": o, "got": got})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    todo, kept, traces = make_cases(ctx), [], []
    for c, (st, val) in zip(todo, pmap(ask, todo)):
        if st == "raised":
            ctx.violate("raised " + c["kind"] + c.get("how", ""), f"{c}: {val}", c)
        else:
            kept.append(c)
            traces.append(val)
    for c, tr, v in zip(kept, traces, ctx.judge("PointsTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f"{f} {c['kind']}{c.get('how', '')}", f"{c}: {str(tr)[:300]}", {"case": c, "trace": tr})
        ctx.sample({"asked": {k: c[k] for k in c if k != "pts"}, "fails": v["fails"]})
    ctx.notes["kinds"] = {k: sum(c["kind"] == k for c in kept) for k in sorted({c["kind"] for c in kept})}
