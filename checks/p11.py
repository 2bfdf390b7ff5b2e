"""P11: moving objects follow their prescribed movement, at any time and in any order of asking."""
import math

import numpy as np

from vlib import simdrv
from vlib.simdrv import scaled

MODEL = "INIT MCInit\nNEXT MCNext\nCONSTANTS Lens = {l}\n MaxSegs = {s}\n Periods = {p}\nINVARIANTS WhereItIs Periodic\n"
TR = "INIT TInit\nNEXT TNext\n"
UNIT = [(1, 0, 0), (2, 0, 0), (3, 0, 0), (4, 0, 0), (3, 4, 0), (1, 2, 2), (2, 3, 6), (4, 4, 2), (0, 0, 5), (6, 0, 0)]


def gen_points(rng, dim, mode):
    n = int(rng.integers(2, 6))
    while True:
        p = [rng.integers(-4, 5, size=dim)]
        for _ in range(n - 1):
            if mode == "time" and rng.random() < .8:
                p.append(rng.integers(-4, 5, size=dim))
                continue
            while True:
                v = rng.permutation(UNIT[int(rng.integers(len(UNIT)))]) * rng.choice([-1, 1], size=3)
                if dim == 3 or v[2] == 0:
                    break
            p.append(p[-1] + v[:dim])
        if mode == "time" and np.array_equal(p[0], p[-1]) and n == 2:
            continue
        close = math.isqrt(int(np.sum((p[0] - p[-1]) ** 2)))
        if mode == "speed" and close ** 2 != int(np.sum((p[0] - p[-1]) ** 2)):
            continue
        return [[int(x) for x in q] for q in p]


def gen_part(rng):
    B = int(rng.choice([1, 1, 2, 4]))
    sr = int(rng.choice([1, 8, 100, 250, 1000, 16000]))
    kind = str(rng.choice(["speed", "time", "circle", "table"], p=[.4, .25, .25, .1]))
    if kind == "table":
        return {"kind": "table", "B": 1}
    if kind == "circle":
        A, R = int(rng.integers(1, 90)), int(rng.integers(1, 90))
        r0 = int(rng.integers(0, 4))
        return {"kind": "circle", "B": B, "sr": sr, "c": {"r0": r0, "r1": r0 + int(rng.integers(0, 4)), "A": A, "R": R},
                "center": [int(x) for x in rng.integers(-3, 4, size=3)], "start": float(rng.choice([0, 0, 1.25, -2, 7]))}
    dim = int(rng.choice([3, 3, 2]))
    while True:
        pts = gen_points(rng, dim, kind)
        full = pts if pts[0] == pts[-1] and len(pts) > 1 else pts + [pts[0]]
        ln = [math.isqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for p, q in zip(full, full[1:])]
        if kind == "speed" and 0 in ln:
            continue
        P = int(rng.integers(1, 120))
        scale = P * (math.lcm(*ln) if kind == "speed" else 1)
        if scale < 1e6:
            break
    return {"kind": "walk", "B": B, "sr": sr, "w": {"mode": kind, "pts": full, "len": ln, "P": P}, "given": pts, "dim": dim,
            "scale": scale, "as_list": bool(rng.random() < .5), "default": bool(rng.random() < .5)}


def gen(rng, i):
    n = 1 if i % 3 else int(rng.integers(2, 5))
    while True:
        parts = [gen_part(rng) for _ in range(n)]
        if all(p.get("dim", 3) == 3 for p in parts) or n == 1:
            break
    P = [p["w"]["P"] if p["kind"] == "walk" else p["c"]["A"] if p["kind"] == "circle" else 5 for p in parts]
    top = 3 * max(P) + 3
    asks = [0] + [int(x) for x in rng.integers(0, top, size=25)] + [int(x) for x in rng.integers(0, 20000, size=3)] + \
        [int(k * p) for p in P for k in (1, 2)]
    if rng.random() < .5:
        asks = list(range(0, min(top, 40)))
    return {"parts": parts, "asks": [int(x) for x in (rng.permutation(asks) if rng.random() < .5 else asks)], "how": int(rng.integers(0, 4)),
            "plot": bool(i % 5 == 0), "tot": int(rng.integers(1, top))}


def make(p):
    import aspsim.room.trajectory as tr
    if p["kind"] == "table":
        return tr.Trajectory(lambda n: np.array([[float(n), 2., 3.]]))
    if p["kind"] == "circle":
        c = p["c"]
        return tr.CircularTrajectory((float(c["r0"]), float(c["r1"])), tuple(map(float, p["center"])), c["R"] / p["B"] / p["sr"],
                                     c["A"] / p["B"] / p["sr"], p["sr"], **({"start_angle": p["start"]} if p["start"] else {}))
    pts = [list(map(float, x)) for x in p["given"]] if p["as_list"] else np.array(p["given"], dtype=float)
    kw = {} if p["w"]["mode"] == "speed" and p["default"] else {"mode": "constant_" + p["w"]["mode"]}
    return tr.LinearTrajectory(pts, p["w"]["P"] / p["B"] / p["sr"], p["sr"], **kw)


def row(p, x):
    if p["kind"] == "table":
        return [int(x[0]) if x[1] == 2 and x[2] == 3 else -1]
    if p["kind"] == "walk":
        return scaled(x, p["scale"]).tolist()
    c, ctr = p["c"], p["center"]
    dx, dy = x[0] - ctr[0], x[1] - ctr[1]
    rad = math.hypot(dx, dy)
    turn = -1
    if rad > 1e-9:
        z = ((math.atan2(dy, dx) - p["start"]) / (2 * math.pi) % 1.) * c["A"]
        turn = int(scaled([z], 1)[0])
        turn = turn % c["A"] if turn < 1e8 else turn
    return [turn, int(scaled([rad], c["R"])[0]), int(scaled([x[2] - ctr[2]], 1000)[0])]


def run_one(case):
    import aspsim.room.trajectory as tr
    import matplotlib.pyplot as plt
    objs = [make(p) for p in case["parts"]]
    if len(objs) > 1:
        traj = tr.TrajectoryCollection(objs if case["how"] else [objs[0], tr.TrajectoryCollection(objs[1:])])
    else:
        traj = tr.TrajectoryCollection(objs) if case["how"] == 1 else objs[0]
    asks = []
    for k, n in enumerate(case["asks"]):
        if case["plot"] and k == 3:
            fig, ax = plt.subplots()
            traj.plot(ax, "x", "name", case["tot"])
            plt.close(fig)
        pos = np.asarray(traj.current_pos(n), dtype=float)
        if pos.ndim != 2 or pos.shape[1] not in (2, 3) or pos.shape[0] != len(objs):
            asks.append({"t": n, "n": -1, "rows": []})
            continue
        asks.append({"t": n, "n": len(pos), "rows": [row(p, x) for p, x in zip(case["parts"], pos)]})
    return {"parts": case["parts"], "asks": asks}


def run(ctx):
    ctx.model("Walk_MC", MODEL.format(l="{1,2,3}", s=ctx.n(3, 4), p=ctx.n("{1,2,3,5,6,7}", "{1,2,3,4,5,6,7,8,9,10,11,12}")))
    ctx.exhaustive = True
    cases = [gen(ctx.rng, i) for i in range(ctx.n(400, 6000))]
    traces, owner = [], []
    for case, (st, val) in zip(cases, simdrv.pmap(run_one, cases)):
        if st == "raised":
            ctx.violate("raised", f"the code raised {val}", {"case": case, "raised": val})
        else:
            traces.append(val)
            owner.append(case)
    for case, tr, v in zip(owner, traces, ctx.judge("WalkTrace", traces, cfg=TR) if traces else []):
        for f in v["fails"]:
            ctx.violate(f[0], f"'{f[0]}' is not where it should be at {f[1]}: {case['parts']}", {"case": case, "trace": tr, "fails": v["fails"]})
        ctx.sample({"parts": case["parts"], "asks": case["asks"][:6], "fails": v["fails"]})
    ctx.notes["positions_asked"] = sum(len(t["asks"]) for t in traces)
