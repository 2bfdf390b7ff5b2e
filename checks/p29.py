"""P29: directional microphones."""
import math

import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap

MC = """INIT MCInit
NEXT MCNext
CONSTANTS MaxD = {d}
 MaxP = {p}
 MaxA = {a}
 MaxTime = {t}
INVARIANTS Null Determined
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"
PER = [3, 5, 7, 9, 11, 13, 15, 1]
SCALE = 100


def pair(c):
    """One call with several rows; one trace for each row."""
    from aspsim.room.directional import differential_cardioid_microphone
    n = np.arange(c["total"]) - c["clean"]
    inside = (n >= 0) & (n < c["steps"])
    at = lambda w, k: np.array(w)[k % len(w)]
    main = np.stack([np.where(inside, at(f, n) + at(b, n - c["dist"]), g) for f, b, g in zip(c["front"], c["back"], c["noise"])])
    second = np.stack([np.where(inside, at(f, n - c["dist"]) + at(b, n), g) for f, b, g in zip(c["front"], c["back"], c["noise"])])
    given = [x.astype(float) for x in (main, second)]
    f = (c["sr"] / (2 * c["half"] + 1)) * c["below"] / 4 if c["below"] >= 0 else None
    out = limited(differential_cardioid_microphone, given[0], given[1], c["dist"] * c["c"] / c["sr"], c["half"], c["c"], c["sr"], *([f] if f is not None or c["t"] % 2 else []))
    out = np.asarray(out)
    same = np.array_equal(given[0], main) and np.array_equal(given[1], second)
    rows = []
    for r in range(len(c["front"])):
        per = len(c["front"][r])
        x = out[r] if out.ndim == 2 and r < len(out) else np.zeros(0)
        x = np.where(np.isfinite(x) & (np.abs(x) < 1e5), x, 1e5)
        rows.append({"kind": "pair", "dist": c["dist"], "half": c["half"], "clean": c["clean"], "steps": c["steps"], "below": c["below"], "scale": SCALE,
                     "tol": 2, "front": c["front"][r], "back": c["back"][r], "main": main[r].tolist(), "second": second[r].tolist(),
                     "out": np.rint(x * SCALE * per).astype(int).tolist(), "untouched": bool(same and out.shape == main.shape)})
    return rows


def array(c):
    from aspsim.array import ArrayCollection, MicArray, FreeSourceArray, ControllableSourceArray
    from aspsim.simulator import SimulatorSetup
    from aspsim.signal.sources import WhiteNoiseSource
    setup = SimulatorSetup()
    info = setup.sim_info
    info.tot_samples, info.sim_buffer, info.sim_chunk_size = 10, 2000, 2000
    info.reverb, info.samplerate, info.c, info.rt60 = "ism", 1024, 256, 0.
    info.room_size, info.room_center = [30, 30, 30], [0, 0, 0]
    info.max_room_ir_length, info.extra_delay = 100, 12
    info.auto_save_load, info.plot_output, info.randomized_ism = False, "none", False
    toward = np.array(c["toward"])
    pos = np.array(c["pos"]) / 4.
    n = len(pos)
    kw = {"directivity_type": list(c["types"]), "directivity_dir": np.array(c["dirs"], float)} if c["given"] else {}
    tr = {"kind": "array", "types": c["types"], "dirs": c["dirs"], "toward": c["toward"], "from": c["from"], "refused": False, "got": [], "scale": SCALE, "tol": 4}
    src = toward[None] * c["away"] / 4. + pos[:1]
    skw = {"directivity_type": [c["from"]], "directivity_dir": np.array([[0., 1, 0]])} if c["from"] != "omni" or c["t"] % 2 else {}
    try:
        setup.add_array(FreeSourceArray("s", src, WhiteNoiseSource(1, 1), **skw) if c["t"] % 3 else ControllableSourceArray("s", src, **skw))
        if c["t"] % 5 == 0:
            setup.add_mics("other", pos[:1] + .25)
        if c["t"] % 2:
            setup.add_mics("m", pos, **kw)
        else:
            setup.add_array(MicArray("m", pos, **kw))
        sim = limited(setup.create_simulator)
    except NotImplementedError:
        tr["refused"] = True
        return [tr]
    p = sim.arrays.paths["s"]["m"]
    got = []
    for k in range(n):
        d = math.dist(src[0], pos[k])
        got.append(int(round(2 * SCALE * float(p[0, k, 12 + int(round(4 * d))]) * d)))
    tr["got"] = got
    return [tr]


AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
TYPES = ["cardioid", "hypercardioid", "supercardioid", "bidirectional"]


def make_cases(ctx):
    rng = ctx.rng
    R = lambda a, b: int(rng.integers(a, b + 1))
    pairs, arrays = [], []
    for t in range(ctx.n(150, 2000)):
        fading = t % 3 == 0
        behind = t % 12 == 5        # nothing comes from the front: whatever is left out below a frequency, nothing is heard
        half = (1, 4, 7, 10, 13)[R(0, 4)] if fading else R(1, 20)
        N = 2 * half + 1
        pers = [3] if fading else [p for p in PER if N % p == 0] + [N]
        dist = R(1, 6)
        while math.gcd(dist, N) != 1:
            dist = R(1, 6)
        steps = N + R(0, 30)
        clean = R(0, 12) * (t % 2)
        rows = R(1, 4)
        per = [pers[R(0, len(pers) - 1)] for _ in range(rows)]
        wave = lambda p: rng.integers(-6, 7, size=p).tolist()
        back = [wave(p) if R(0, 3) else [0] * p for p in per]
        total = clean + steps + R(0, 12) * (t % 2)
        exact = (fading or behind) and R(0, 1)
        pairs.append({"t": t, "half": half, "dist": dist, "steps": steps, "clean": clean, "total": total, "below": 4 * R(0, min(half + 1, 10)) + (0 if exact else R(1, 3)) if fading or behind else -1,
                      "front": [[0] * p if behind else wave(p) for p in per], "back": back, "noise": [rng.integers(-9, 10, size=total).tolist() for _ in range(rows)],
                      "sr": N * 100 if exact else [1000, 8000, 44100, 48000][R(0, 3)], "c": [343, 343., 320, 1500.][R(0, 3)]})
    for t in range(ctx.n(40, 300)):
        n = R(1, 4)
        given = t % 4 != 3
        kinds = [["omni"] * n, ["cardioid"] * n, ["omni"] * n, [(["omni"] + TYPES)[R(0, 4)] for _ in range(n)]][t % 4 if given else 0]
        arrays.append({"t": t, "given": given, "types": kinds, "dirs": [AXES[R(0, 5)] for _ in range(n)], "toward": AXES[R(0, 5)],
                       "from": TYPES[R(0, 3)] if t % 6 == 5 else "omni", "away": R(4, 30),
                       "pos": [[R(-12, 12) for _ in range(3)]] * n})
    return pairs, arrays


def run(ctx):
    ctx.model("Cardioid_MC", MC.format(d=ctx.n(3, 4), p=ctx.n(3, 5), a=1, t=ctx.n(14, 24)))
    pairs, arrays = make_cases(ctx)
    traces, kept = [], []
    for fn, cases in ((pair, pairs), (array, arrays)):
        for c, (st, val) in zip(cases, pmap(fn, cases)):
            if st == "raised":
                ctx.violate("raised " + fn.__name__, f"{str(c)[:500]}: {val}", c)
            else:
                traces += val
                kept += [c] * len(val)
    for c, tr, v in zip(kept, traces, ctx.judge("CardioidTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f, f"{str(c)[:500]}: got {str(tr.get('out', tr.get('got')))[:300]}", {"case": c, "trace": tr})
        ctx.sample({"kind": tr["kind"], "fails": v["fails"]})
    ctx.assumptions += ["The distance of the two microphones is a whole number of samples without a common divisor with the length of the filter, and the sound repeats itself with a period "
                        "that divides the length of the filter: in between, the filter is an approximation, of unstated accuracy."]
