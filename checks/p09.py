"""P09: what the sources play."""
import numpy as np

from vlib.ctx import limited

TR = "INIT TInit\nNEXT TNext\nVIEW TView\nCONSTANT Orders = {5}\n"


def steps_of(src, sizes, scale, refusable=False):
    steps = []
    for m in sizes:
        try:
            x = src.get_samples(m)
        except StopIteration:
            if not refusable:
                raise
            steps.append({"n": m, "refused": True, "out": []})
            continue
        given, x = x, np.atleast_2d(np.array(x, float))
        if given.flags.writeable:
            given[...] = 77         # who has asked can do with the samples as he likes
        steps.append({"n": m, "refused": False, "out": np.rint(x * scale).astype(int).tolist()})
    return steps


def second(make, *args, **kw):
    """A source made from the same things as another one that has already been playing."""
    first = make(*args, **kw)
    try:
        first.get_samples(3)
    except StopIteration:
        pass
    return make(*args, **kw)


def measure(src, sizes):
    return np.concatenate([np.atleast_2d(src.get_samples(m)) for m in sizes], axis=-1)


def sizes_for(rng, total):
    out = []
    while sum(out) < total:
        out.append(int(min(rng.choice([1, 2, 3, 7, 16, 40]), total - sum(out))))
    return out


def small_traces(rng, i, thorough):
    from aspsim.signal import sources as s
    out = []
    C = int(rng.integers(1, 4))
    # sequence
    T = int(rng.integers(1, 14))
    audio = rng.integers(-9, 10, size=(C, T))
    amp = int(rng.integers(1, 4))
    one_d = i % 4 == 3
    a = audio[0] if one_d else audio
    aud = [audio[0].tolist()] if one_d else audio.tolist()
    base = {"audio": aud, "amp": amp, "scale": 1, "tol": 0, "channels": len(aud)}
    src = second(s.Sequence, a.astype(float), amp_factor=amp) if i % 2 else second(s.Sequence, a.astype(float), amp, "repeat")
    sz = sizes_for(rng, int(rng.integers(1, 60)))
    out.append(({"kind": "sequence", **base, "steps": limited(steps_of, src, sz, 1)}, f"Sequence of {T} samples"))
    src = second(s.Sequence, a.astype(float), amp_factor=amp, end_mode="raise")
    sz = [int(x) for x in rng.integers(0, max(2, T), size=8)] + [1] * 3
    out.append(({"kind": "once", **base, "steps": limited(steps_of, src, sz, 1, True)}, f"Sequence of {T} samples, end_mode raise, requests {sz}"))
    # pulses
    per, dly = rng.integers(1, 12, size=C), rng.integers(0, 25, size=C)
    amps = rng.integers(1, 9, size=C)
    scalar = i % 3 == 0
    if scalar:
        per[:], dly[:], amps[:] = per[0], dly[0], amps[0]
        src = second(s.PulseTrain, C, float(amps[0]), int(per[0]), int(dly[0]))
    else:
        conv = [list, tuple, np.array][i % 3]
        src = second(s.PulseTrain, C, conv(amps.astype(float).tolist()), conv(per.tolist()), conv(dly.tolist()))
    out.append(({"kind": "pulse", "period": per.tolist(), "delay": dly.tolist(), "amps": amps.tolist(), "scale": 1, "tol": 0,
                 "channels": C, "steps": limited(steps_of, src, sizes_for(rng, 70), 1)}, f"PulseTrain period {per} delay {dly}"))
    start = int(rng.integers(-5, 50))
    out.append(({"kind": "counter", "start": start, "scale": 1, "tol": 0, "channels": 1,
                 "steps": limited(steps_of, s.Counter(1, start), sizes_for(rng, 50), 1)}, f"Counter from {start}"))
    # registers
    order = int(rng.integers(2, 9))
    taps = sorted(int(x) for x in rng.choice(np.arange(1, order), size=int(rng.integers(1, order)), replace=False))
    state = rng.integers(0, 2, size=order)
    state[int(rng.integers(0, order))] = 1
    own = i % 2 == 0
    total = int(rng.integers(20, 90))
    src = second(s.MLS, 1, order, taps, state=state.copy() if own else None)
    out.append(({"kind": "mls", "taps": taps, "state": state.tolist() if own else [1] * order, "total": total, "scale": 1, "tol": 0,
                 "channels": 1, "steps": limited(steps_of, src, sizes_for(rng, total), 1)}, f"MLS order {order} taps {taps}"))
    order = int(rng.integers(5, 12 if thorough else 8))
    if i % 15 == 7:
        order = 10
    C = int(rng.integers(1, 6))
    roots = rng.integers(1, 5, size=C)
    if i % 2:
        roots[:] = roots[0]
    power = float(roots[0] ** 2) if i % 2 else roots.astype(float) ** 2
    src = second(s.GoldSequenceSource, C, power, order)
    total = 2 ** order + 20 if order < 9 else 150
    out.append(({"kind": "gold", "order": order, "amps": (roots * 10).tolist(), "scale": 10, "tol": 0, "channels": C,
                 "steps": limited(steps_of, src, sizes_for(rng, total), 10)}, f"Gold sequences of order {order}"))
    # sines
    per_c = {3: -1, 4: 0, 6: 1}
    M = [3, 4, 6][i % 3]
    power = [0.25, 0.5, 1., 2., 3.][int(rng.integers(0, 5))]
    sr = int(rng.choice([1200, 48000]))
    scale = 3000
    C = int(rng.integers(1, 4))
    own = np.array([0.25, 3., 1.])[:C] if i % 3 == 1 else power
    src = second(lambda *a: s.SineSource(*a, np.random.default_rng(i)), C, own, sr / M if sr % M else sr // M, sr)
    cc = per_c[M]
    A = scale * np.sqrt(2 * np.max(own))
    energy = scale ** 2 * (np.zeros(C) + own) * (4 - cc * cc) / 2
    out.append(({"kind": "sine", "c": cc, "energy": np.rint(energy).astype(int).tolist(), "etol": int(4 * A + 20), "channels": C, "scale": scale, "tol": 0,
                 "steps": limited(steps_of, src, sizes_for(rng, 80), scale)}, f"SineSource period {M} power {own}"))
    ms = [[3], [3, 4], [3, 4, 6], [12, 4]][i % 4]
    src = second(lambda *a: s.MultiSineSource(*a, np.random.default_rng(i)), 1, power, [sr / m for m in ms] if i % 2 else np.array([sr / m for m in ms]), sr)
    energy = 12 * power * scale ** 2
    out.append(({"kind": "multi", "period": 12, "energy": int(round(energy)), "etol": int(12 * 4 * scale * np.sqrt(2 * power * len(ms)) / 2 + 50),
                 "channels": 1, "scale": scale, "tol": 0, "steps": limited(steps_of, src, sizes_for(rng, 60), scale)},
                f"MultiSineSource periods {ms} power {power}"))
    return out


def file_traces(rng, i, folder):
    import soundfile as sf
    from aspsim.signal import sources as s
    C, N = int(rng.integers(1, 4)), int(rng.integers(30, 90))
    up, down = [(1, 1), (1, 2), (1, 3), (2, 3), (147, 160)][i % 5]
    const = up != down
    if const:
        N = 400
    audio = rng.integers(-20000, 20000, size=(C, 1)) + np.zeros((1, N), int) if const else rng.integers(-20000, 20000, size=(C, N))
    sr = 480 * down
    path = folder / f"audio{i}.wav"
    sf.write(path, (audio.T / 32768.0) if C > 1 or i % 2 else (audio[0] / 32768.0), sr, subtype="PCM_16")
    first = 0 if i % 2 else int(rng.integers(1, C + 1))
    kw = {} if up == down and i % 3 else {"desired_sr": 480 * up}
    if first:
        kw["num_channels"] = first
    got = limited(s.load_audio_file, path if i % 2 else str(path), **kw)
    return {"kind": "file", "channels": C, "scale": 1, "steps": [], "audio": audio.tolist(), "first": first, "up": up, "down": down,
            "edge": 60, "tol": 200 if const else 1, "loaded": np.rint(np.asarray(got) * 32768).astype(int).tolist()}, \
        f"file of {C} channels, {kw}"


def noise_traces(rng, i):
    """Statistics of the random sources in millionths of the power asked for."""
    from aspsim.signal import sources as s
    N = 40000
    sizes = [1, 99, 900, 4000, 10000, 25000]
    out = []

    def entry(name, rows):
        return ({"kind": "noise", "channels": 1, "scale": 1, "tol": 0, "steps": [],
                 "measured": [{"what": w, "channel": c, "value": int(round(v * 1e4)), "low": int(lo * 1e4), "high": int(hi * 1e4)}
                              for w, c, v, lo, hi in rows]}, name)

    gen = np.random.default_rng([7, i])
    C = 3
    for power in (2.5, np.array([0.5, 4., 9.])):
        x = limited(measure, s.WhiteNoiseSource(C, power, gen), sizes)
        pw = np.ones(C) * power
        rows = [("power", c + 1, np.mean(x[c] ** 2) / pw[c], .95, 1.05) for c in range(C)]
        rows += [("lag 1", c + 1, np.mean(x[c, 1:] * x[c, :-1]) / pw[c], -.05, .05) for c in range(C)]
        rows += [("across channels", c + 1, np.mean(x[c] * x[c - 1]) / np.sqrt(pw[c] * pw[c - 1]), -.05, .05) for c in range(C)]
        rows += [("mean", c + 1, np.mean(x[c]) / np.sqrt(pw[c]), -.05, .05) for c in range(C)]
        out.append(entry(f"WhiteNoiseSource power {power}", rows))
    sr = 8000
    lo, hi = [(500, 1500), (200, 3000), (1000, 1400)][i % 3]
    power = [0.5, 3., np.array([0.5, 8.])][i % 3]
    x = limited(measure, s.BandlimitedNoiseSource(2, power, (lo, hi), sr, gen), sizes)
    f = np.fft.rfftfreq(N, 1 / sr)
    P = np.abs(np.fft.rfft(x)) ** 2
    inside = P[:, (f > lo * .9) & (f < hi * 1.1)].sum(1) / P.sum(1)
    spread = P[:, (f > lo * 1.1) & (f < (lo + hi) / 2)].sum(1) / P.sum(1)
    rows = [("power", c + 1, np.mean(x[c] ** 2) / (power + np.zeros(2))[c], .8, 1.2) for c in range(2)]
    rows += [("band", c + 1, inside[c], .98, 1.0001) for c in range(2)]
    rows += [("lower half of the band", c + 1, spread[c], .2, .55) for c in range(2)]
    out.append(entry(f"BandlimitedNoiseSource {lo}-{hi} power {power}", rows))
    ac = np.array([[2, .5, .2, .1], [1, -.6, .3, -.1], [4, 1., 1., .5]])
    x = limited(measure, s.AutocorrSource(3, ac, gen), sizes)
    rows = [(f"lag {k}", c + 1, np.mean(x[c, k:] * x[c, :N - k]) / ac[c, 0], ac[c, k] / ac[c, 0] - .06, ac[c, k] / ac[c, 0] + .06)
            for c in range(3) for k in range(4)]
    out.append(entry("AutocorrSource", rows))
    # the first samples are as loud as all others, whatever the powers of the channels
    soft, loud = [1e-6, 1e-4][i % 2], [1., 50.][i // 2 % 2]
    pw = np.array([loud, soft, 1.])
    rng = np.random.default_rng([9, i])
    early, whole = np.zeros(3), np.zeros(3)
    for _ in range(400):
        x = limited(measure, s.AutocorrSource(3, pw[:, None] * np.array([[1, .9, .8], [1, .8, .6], [1, -.9, .8]]), rng), [2, 2])
        early += np.mean(x ** 2, axis=1) / 400
        x = limited(measure, s.BandlimitedNoiseSource(3, pw, (lo, hi), sr, rng), [40, 60])
        whole += np.max(x ** 2, axis=1) / 400
    rows = [("first samples", c + 1, early[c] / pw[c], .6, 1.6) for c in range(3)]
    out.append(entry(f"AutocorrSource powers {pw}", rows))
    rows = [("first samples", c + 1, min(whole[c] / pw[c], 1e4), .5, 15) for c in range(3)]
    out.append(entry(f"BandlimitedNoiseSource powers {pw}", rows))
    return out


def code_trace(rng, order):
    """Gold sequences that are not in the table."""
    from aspsim.signal import sources as s
    L, C = 2 ** order - 1, 3
    src = second(s.GoldSequenceSource, C, 4., order)
    total = L + int(rng.integers(1, 50))
    cuts = [0] + sorted(int(x) for x in rng.integers(0, total, size=5)) + [total]
    delays = []
    for _ in range(24):
        a, b, d = int(rng.integers(1, C + 1)), int(rng.integers(1, C + 1)), int(rng.integers(0, L))
        if a != b or d:
            delays.append([a, b, d])
    return {"kind": "code", "order": order, "amps": [2] * C, "delays": delays, "scale": 1, "tol": 0, "channels": C,
            "steps": limited(steps_of, src, [hi - lo for lo, hi in zip(cuts, cuts[1:])], 1)}, f"Gold sequences of order {order}"


def run(ctx):
    ctx.model("Gold", "INIT GInit\nNEXT GNext\nVIEW GView\nINVARIANTS ThreeValued AllThree\nCONSTANT Orders = %s\n"
              % ctx.n("{5,6,7,9,10}", "{5,6,7,8,9,10,11}"))
    ctx.model("Register", "INIT Init\nNEXT Step\nINVARIANTS Maximal NeverZero\nCONSTANT Orders = %s\n"
              % ctx.n("{5,6,7,8,9}", "{5,6,7,8,9,10,11}"))
    traces, what = [], []
    for i in range(ctx.n(30, 300)):
        for tr, w in small_traces(ctx.rng, i, ctx.thorough):
            traces.append(tr)
            what.append(w)
    for i in range(ctx.n(20, 100)):
        tr, w = file_traces(ctx.rng, i, ctx.scratch)
        traces.append(tr)
        what.append(w)
    for order in ctx.n([13], [12 + 1, 15]):
        tr, w = code_trace(ctx.rng, order)
        traces.append(tr)
        what.append(w)
    for i in range(ctx.n(3, 12)):
        for tr, w in noise_traces(ctx.rng, i):
            traces.append(tr)
            what.append(w)
    for tr, w, v in zip(traces, what, ctx.judge("SourcesTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f"{tr['kind']} {f[0]}", f"{w}: clause '{f[0]}' fails at {f[1]}", tr)
        ctx.sample({"source": w, "requests": len(tr["steps"]), "fails": v["fails"]}, 12)
    ctx.assumptions.append("power, spectrum and correlation of the random sources are estimates over 40000 samples with seeded generators")
