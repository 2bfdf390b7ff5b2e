"""P27: impulse responses of rooms."""
import math

import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap, BAD

MC = """INIT MCInit
NEXT MCNext
CONSTANTS MaxWide = {w}
 MaxTime = {t}
INVARIANTS Mirror Inside Reciprocal Slow Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def responses(c, groups_src, groups_mic, **settings):
    """The responses that a set-up gets, one block per pair of arrays, put together."""
    import aspsim.array as ar
    from aspsim.simulator import SimulatorSetup
    from aspsim.signal.sources import WhiteNoiseSource
    unit = c["c"] / c["sr"]
    setup = SimulatorSetup()
    info = setup.sim_info
    info.tot_samples, info.sim_buffer, info.sim_chunk_size = 10, 2000, 2000
    info.reverb, info.samplerate, info.c = "ism", c["sr"], c["c"]
    info.room_size = [x * unit for x in c["room"]]
    info.room_center = [x * unit for x in c["center"]]
    info.max_room_ir_length, info.extra_delay = c["len"], c["ext"]
    info.save_source_contributions = False
    info.auto_save_load = False
    info.plot_output = "none"
    for k, v in settings.items():
        setattr(info, k, v)
    shift = np.array(c["center"]) - np.array(c["room"]) / 2      # the corner of the room
    at = 0
    names = {"src": [], "mic": []}
    for k, n in enumerate(groups_src):
        pos = (np.array(c["src"][at:at + n], dtype=float) + shift) * unit
        if k % 2:
            setup.add_free_source(f"s{k}", pos, WhiteNoiseSource(n, 1))
        else:
            setup.add_controllable_source(f"s{k}", pos)
        names["src"].append(f"s{k}")
        at += n
    at = 0
    for k, n in enumerate(groups_mic):
        setup.add_mics(f"m{k}", (np.array(c["mic"][at:at + n], dtype=float) + shift) * unit)
        names["mic"].append(f"m{k}")
        at += n
    if c["sim"]:
        from aspsim.processor import AudioProcessor
        sim = setup.create_simulator()
        arrays = sim.arrays
    else:
        arrays = setup.arrays
        arrays.set_default_path_type("ism")
        arrays.setup_ir(info)
    p = np.concatenate([np.concatenate([arrays.paths[s][m] for m in names["mic"]], axis=1) for s in names["src"]], axis=0)
    info2 = {f"{s}->{m}": arrays.path_info.get(f"{s}->{m}", {}) for s in names["src"] for m in names["mic"]}
    return np.asarray(p), info2


def db(x):
    return 10 * math.log10(x) if x > 0 else -math.inf


def ask(c):
    if c["kind"] == "cut":
        from aspsim.room.roomimpulseresponse import calc_truncation_info
        err, val = calc_truncation_info([[np.array(x, float) for x in mic] for mic in c["rir"]], c["len"])
        return {"kind": "cut", "rir": [x for mic in c["rir"] for x in mic], "len": c["len"], "said": [float(err), float(val)]}
    unit = c["c"] / c["sr"]
    if c["kind"] == "free":
        p, _ = responses(c, c["gs"], c["gm"], rt60=0.0, randomized_ism=c["random"])
        tr = {k: c[k] for k in ("kind", "src", "mic", "ext", "len", "exact")}
        tr["got_len"] = int(p.shape[-1]) if p.shape[:2] == (len(c["src"]), len(c["mic"])) else -1
        tr["seen"] = []
        if not np.all(np.isfinite(p)):
            tr["got_len"] = -2
            return tr
        for i in range(p.shape[0]):
            row = []
            for j in range(p.shape[1]):
                v = p[i, j] * unit
                nz = np.nonzero(np.abs(v) > 1e-3 / (1 + math.dist(c["src"][i], c["mic"][j])))[0]
                pk = int(np.argmax(np.abs(v)))
                d2 = 1 / v[pk] ** 2 if v[pk] > 1e-5 else 0
                row.append({"first": int(nz[0]) + 1 if len(nz) else 0, "last": int(nz[-1]) + 1 if len(nz) else 0, "peak": pk + 1,
                            "d2": int(round(d2)) if 0 < d2 < 1e9 and (not c["exact"] or abs(d2 - round(d2)) < 2e-4 * max(d2, 1)) else BAD})
            tr["seen"].append(row)
        return tr
    if c["kind"] == "told":
        return told(c)
    p, _ = responses(c, [1], [1], rt60=c["rt60"], randomized_ism=False)
    return {"kind": "room", "wide": c["room"][c["axis"]], "s": c["src"][0][c["axis"]], "m": c["mic"][0][c["axis"]], "horizon": c["len"] - 1 - c["ext"],
            "p": p[0, 0].tolist(), "shape": list(p.shape)}


def told(c):
    import pyroomacoustics as pra
    n, m = len(c["src"]), len(c["mic"])
    _, info = responses(c, [n], [m], rt60=c["rt60"], randomized_ism=False)
    long = 500
    full = np.ones((1, 1, 1))
    while np.any(full[..., -1]):        # until the room is silent
        long *= 2
        full, _ = responses(dict(c, len=long), [n], [m], rt60=c["rt60"], randomized_ism=False)
    said = info["s0->m0"]["ism_info"]
    unit = c["c"] / c["sr"]
    absorb, order = pra.inverse_sabine(c["rt60"], [x * unit for x in c["room"]], c=c["c"]) if c["rt60"] else (1., 0)
    tenth = lambda v: int(round(max(v, -9999.) * 1e4))        # noqa: E731
    micro = lambda v: int(round(v * 1e6)) if isinstance(v, (int, float)) else BAD       # noqa: E731
    each = []
    for x in full.reshape(-1, full.shape[-1]):
        rest = x[c["len"]:]
        each.append({"time": micro(float(pra.experimental.measure_rt60(x, fs=c["sr"]))) if c["rt60"] else 0,
                     "energy": tenth(db(np.sum(rest ** 2) / np.sum(x ** 2))),
                     "largest": tenth(2 * db(np.max(np.abs(rest), initial=0) / np.max(np.abs(x))))})
    name = "Measured RT60 (%s)"
    return {"kind": "told", "each": each, "absorption": micro(absorb), "order": order,
            "said": {**{k: micro(said[name % k]) for k in ("min", "median", "mean", "max")}, "order": int(said["Max ISM order"]),
                     "absorption": micro(said["Energy Absorption"]), "energy": tenth(said["Max Normalized Truncation Error (dB)"]),
                     "largest": tenth(said["Max Normalized Truncated Value (dB)"])}}


def expected(c, got):
    """The response for the arrivals, up to the time where other walls are heard."""
    unit = c["c"] / c["sr"]
    L, W, H = [x * unit for x in c["room"]]
    vol, surf = L * W * H, 2 * (L * W + W * H + H * L)
    a = 24 * math.log(10) * vol / (c["c"] * surf * c["rt60"])     # Sabine
    beta = math.sqrt(1 - a)
    out = np.zeros(c["len"])
    for t, n, _ in got:
        if t + c["ext"] < c["len"]:
            out[t + c["ext"]] += beta ** n / (t * unit)
    return out


SHORT = [(3, 4, 0), (1, 2, 2), (2, 3, 6), (1, 4, 8), (4, 4, 7), (2, 6, 9), (6, 6, 7), (5, 0, 0), (0, 0, 9), (0, 12, 0), (8, 9, 12), (12, 5, 0)]


def make_cases(ctx):
    rng = ctx.rng
    R = lambda a, b: int(rng.integers(a, b + 1))
    out = []
    exact = [(256, 1024), (512, 2048), (128, 1024), (256, 8192), (256.0, 1024)]     # without any rounding
    speeds = [(250, 1000), (340, 1000), (343.0, 8000), (300, 500), (331.3, 1600)]

    def split(n):
        k = []
        while sum(k) < n:
            k.append(R(1, n - sum(k)))
        return k
    for t in range(ctx.n(50, 500)):
        c, sr = (speeds if t % 3 == 0 else exact)[R(0, 4)]
        room = [R(20, 60) for _ in range(3)]
        src = [[R(1, r - 1) for r in room] for _ in range(R(1, 4))]
        mic = []
        n = R(1, 8) if t % 25 else 500 + R(1, 20) + 500 * (t % 2)
        tries = 0
        while len(mic) < n:
            tries += 1
            if tries % 2 and n < 100:
                d = SHORT[R(0, len(SHORT) - 1)]
                d = [d[k] * (1 - 2 * R(0, 1)) for k in rng.permutation(3)]
                p = [x + y for x, y in zip(src[R(0, len(src) - 1)], d)]
            else:
                p = [R(1, r - 1) for r in room]
            if all(0 < x < r for x, r in zip(p, room)) and p not in src:
                mic.append(p)
        out.append({"kind": "free", "exact": c not in (250, 340, 343.0, 300, 331.3), "room": room, "center": [R(-40, 40) * (1, 1, 12)[R(0, 2)] / 4 for _ in range(3)] if t % 3 else [0, 0, 0], "c": c, "sr": sr,
                    "src": src, "mic": mic, "gs": split(len(src)), "gm": split(len(mic)) if n < 100 else [len(mic)], "ext": R(3, 20),
                    "len": R(20, 120) if n < 100 else 60, "random": False, "sim": bool(t % 5 == 2)})
    for t in range(ctx.n(12, 90)):
        c, sr = exact[t % 5]
        axis = t % 3
        wide = R(6, 24)
        room = [160, 160, 160]
        room[axis] = wide
        src, mic = [80, 80, 80], [80, 80, 80]
        src[axis] = R(1, wide - 1)
        mic[axis] = src[axis]
        while mic[axis] == src[axis]:
            mic[axis] = R(1, wide - 1)
        if t % 2:
            for k in range(3):
                if k != axis:
                    src[k] = mic[k] = R(70, 90)
        # so much absorption is enough that few bounces are needed, and little enough that they are heard
        unit = c / sr
        dims = [x * unit for x in room]
        vol, surf = math.prod(dims), 2 * sum(dims[i] * dims[j] for i, j in ((0, 1), (1, 2), (2, 0)))
        want = float(rng.uniform(.3, .9))
        rt60 = round(24 * math.log(10) * vol / (c * surf * want), 6)
        out.append({"kind": "room", "axis": axis, "room": room, "center": [R(-8, 8) * (1, 60)[R(0, 1)] / 4 for _ in range(3)] if t % 2 else [0, 0, 0], "c": c, "sr": sr,
                    "src": [src], "mic": [mic], "ext": R(3, 8), "len": R(30, 100), "rt60": rt60, "sim": bool(t % 4 == 2)})
    for t in range(ctx.n(8, 60)):
        c, sr = exact[R(0, 4)]
        many = t % 8 == 1
        room = [R(12, 30) for _ in range(3)]
        unit = c / sr
        dims = [x * unit for x in room]
        vol, surf = math.prod(dims), 2 * sum(dims[i] * dims[j] for i, j in ((0, 1), (1, 2), (2, 0)))
        rt60 = 0. if t % 4 == 3 else round(24 * math.log(10) * vol / (c * surf * float(rng.uniform(.6, .9))), 6)
        pt = lambda: [R(1, r - 1) + .5 * R(0, 1) * (t % 2) for r in room]      # noqa: E731
        src = [pt() for _ in range(1 if many else R(1, 3))]
        mic = []
        n = 500 + R(1, 4) if many else R(1, 5)
        while len(mic) < n:
            p = pt()
            # near the source at first: there is no loss and no time there like the others have
            if p not in src and (not many or len(mic) >= 500 or math.dist(p, src[0]) < 9):
                mic.append(p)
        out.append({"kind": "told", "room": room, "center": [0, 0, 0], "c": c, "sr": sr, "src": src, "mic": mic, "ext": R(3, 12),
                    "len": R(20, 70), "rt60": rt60, "sim": False})
    for t in range(ctx.n(60, 600)):
        long = R(1, 9)
        rir = [[[R(-9, 9) for _ in range(max(1, long + R(-2, 2)))] for _ in range(R(1, 2))] for _ in range(R(1, 3))]
        for x in (y for m in rir for y in m):
            x[R(0, len(x) - 1)] = R(1, 9)
            if t % 3 == 0:
                x[len(x) // 2 + 1:] = [0] * len(x[len(x) // 2 + 1:])
                x[0] = 5
        out.append({"kind": "cut", "rir": rir, "len": R(1, 9)})
    return out


def run(ctx):
    ctx.model("Room_MC", MC.format(w=ctx.n(6, 10), t=ctx.n(30, 60)))
    ctx.exhaustive = True
    ctx.assumptions += ["Responses are compared where arrivals fall on whole samples, and where they do not, only their position; image sources along one axis only."]
    todo, kept, traces = make_cases(ctx), [], []
    for c, (st, val) in zip(todo, pmap(ask, todo)):
        if st == "raised":
            ctx.violate("raised " + c["kind"], f"{str(c)[:400]}: {val}", c)
        else:
            kept.append(c)
            traces.append(val)
    for c, tr, v in zip(kept, traces, ctx.judge("RoomTrace", [{k: x for k, x in t.items() if k not in ("p", "shape") and (k != "said" or t["kind"] == "told")} for t in traces], cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f, f"{str(c)[:400]}: {str(tr.get('seen'))[:300]}", {"case": c, "trace": tr})
        if c["kind"] == "cut" and "lost" in v:
            want = [db(v["lost"][0][0] / v["lost"][0][1]), 2 * db(v["lost"][1][0] / v["lost"][1][1])]
            if not all(a == b or abs(a - b) < 1e-6 for a, b in zip(tr["said"], want)):
                ctx.violate("what is lost by cutting", f"{c}: said {tr['said']}, should be {want} dB", {"case": c, "trace": tr})
        if c["kind"] == "room" and "got" in v:
            want = expected(c, v["got"])
            end = 140 - 2 * c["ext"]    # 80 - 10 away from the other walls, and there is a filter around every arrival
            p = np.array(tr["p"])
            if tr["shape"] != [1, 1, c["len"]] or not np.allclose(p[:end], want[:end], atol=5e-5 * np.max(want), rtol=1e-3):
                ctx.violate("reflections", f"{str(c)[:400]}: got {np.round(p, 5).tolist()}, should be {np.round(want, 5).tolist()}"[:900], {"case": c, "trace": tr})
        ctx.sample({"asked": {k: (x if k not in ("mic", "gm") else len(x)) for k, x in c.items()}, "fails": v["fails"]})
    ctx.notes["pairs"] = sum(len(c["src"]) * len(c["mic"]) for c in kept if "src" in c)
    known_case(ctx)


def known_case(ctx):
    """With extra_delay = 0 the fractional delay filters have length one."""
    c = {"kind": "free", "exact": True, "room": [40, 40, 40], "center": [0, 0, 0], "c": 256, "sr": 1024, "src": [[10, 10, 10]], "mic": [[13, 14, 10]], "gs": [1], "gm": [1],
         "ext": 0, "len": 20, "random": False, "sim": False}
    p, _ = limited(responses, c, [1], [1], rt60=0.0, randomized_ism=False)
    want = np.zeros(20)
    want[5] = 1 / 1.25
    if not np.allclose(p[0, 0], want, atol=1e-6):
        ctx.violate("extra_delay=0" if np.isnan(p[0, 0, 5]) and np.sum(np.isnan(p)) == 1 else "extra_delay=0 not as before", f"{c}: got {p[0, 0].tolist()}", c)
