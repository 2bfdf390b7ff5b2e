"""P08: a source is one stream, however it is read."""
import numpy as np

from vlib.ctx import limited

CFG = """INIT MCInit
NEXT MCNext
CONSTANTS Total = {t}
 MaxReqs = {r}
 Gains = {g}
INVARIANTS Gapless Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\nINVARIANT Gapless\nCONSTANTS Total = 0\n MaxReqs = 0\n Gains = {1}\n"
TOL = 1e-7


def kinds(rng):
    """name, make(gain), zero-length requests allowed, set_power available"""
    from aspsim.signal import sources as s
    seed = int(rng.integers(0, 10 ** 6))
    gen = lambda: np.random.default_rng(seed)      # noqa: E731
    C = int(rng.integers(1, 4))
    p = float(rng.choice([0.25, 1., 3.]))
    vec = np.round(rng.uniform(0.5, 3, C), 2)
    sr = int(rng.choice([1000, 8000, 44100]))
    order = int(rng.integers(5, 8))
    T = int(rng.integers(1, 12))
    audio = np.round(rng.normal(size=(C, T)), 3)
    per, dly, amp = rng.integers(1, 9, C), rng.integers(0, 9, C), np.round(rng.uniform(1, 2, C), 2)
    base = np.array([[2, .5, .2, .1], [1, .3, .1, 0.], [4, -1., .5, .2]])[:C]
    gains = np.array([1., 4., 9.])
    lf, hf = sr * 0.1, sr * 0.3
    f = float(rng.uniform(0.01, 0.49)) * sr
    fl = [0.03 * sr, 0.11 * sr, f]
    out = [
        ("sequence", lambda g: s.Sequence(audio), True, False),
        ("sequence 1d, amp", lambda g: s.Sequence(audio[0], amp_factor=2.5), True, False),
        ("white", lambda g: s.WhiteNoiseSource(C, p * g * g, gen()), True, True),
        ("white vector", lambda g: s.WhiteNoiseSource(C, vec * g * g, gen()), True, True),
        ("white default rng", lambda g: s.WhiteNoiseSource(C, p * g * g), True, True),
        ("sine", lambda g: s.SineSource(C, p, f, sr, gen()), True, False),
        ("sine vector", lambda g: s.SineSource(C, vec, f, sr, gen()), True, False),
        ("bandlimited vector", lambda g: s.BandlimitedNoiseSource(C, vec * g * g, (lf, hf), sr, gen()), False, True),
        ("multi sine", lambda g: s.MultiSineSource(1, p, fl, sr, gen()), True, False),
        ("multi sine array", lambda g: s.MultiSineSource(1, p, np.array(fl), sr, gen()), True, False),
        ("counter", lambda g: s.Counter(1, T), True, False),
        ("bandlimited", lambda g: s.BandlimitedNoiseSource(C, p * g * g, (lf, hf), sr, gen()), False, True),
        ("pulse", lambda g: s.PulseTrain(C, list(amp), list(per), list(dly)), True, False),
        ("pulse scalar", lambda g: s.PulseTrain(C, 2.0, int(per[0]), int(dly[0])), True, False),
        ("autocorr", lambda g: s.AutocorrSource(C, base, gen()), False, False),
        ("mls", lambda g: s.MLS(1, order, None), True, False),
        ("mls taps", lambda g: s.MLS(1, order, s.GoldSequenceSource.preferredSequences[order][0]), True, False),
        ("gold", lambda g: s.GoldSequenceSource(C, p * g * g, order), True, True),
        ("gold vector", lambda g: s.GoldSequenceSource(C, vec * g * g, order), True, True),
        ("source array", lambda g: s.SourceArray(s.Sequence, 1, 1.) if False else
         s.SourceArray(lambda a, q: s.PulseTrain(1, a, q), 3, [1., 2., 3.], 4), True, False),
    ]
    pw = {"white": p, "white vector": vec, "white default rng": p, "gold": p, "gold vector": vec, "bandlimited": p, "bandlimited vector": vec}
    return out, pw, gains


def tokens(streams):
    """Map values to tokens: equal values get equal tokens."""
    vals = np.sort(np.concatenate([x.ravel() for x in streams]))
    cut = np.concatenate([[True], np.diff(vals) > TOL]) if len(vals) else np.zeros(0, bool)
    reps = vals[cut]

    def tok(x):
        out = []
        for v in np.asarray(x, float).ravel():
            j = int(np.clip(np.searchsorted(reps, v), 0, len(reps) - 1))
            c = min([max(j - 1, 0), j, min(j + 1, len(reps) - 1)], key=lambda q: abs(reps[q] - v))
            out.append(c + 1 if abs(reps[c] - v) < 10 * TOL else -1)
        return out
    return tok


def serve(make, reqs, pw):
    """Answer the requests with a fresh source."""
    src = make(1)
    out = []
    for r in reqs:
        if r["op"] == "gain":
            src.set_power(pw * r["n"] ** 2)
            out.append(None)
        elif r["op"] == "pass":
            src.get_samples(r["n"])
            out.append(None)
        else:
            out.append(np.atleast_2d(np.array(src.get_samples(r["n"]), copy=True)))
    return out


def trace_of(make, reqs, pw, total):
    base = sum(r["n"] for r in reqs if r["op"] == "pass")
    streams = {g: np.atleast_2d(np.array(make(g).get_samples(total), float))[:, base:] for g in ((1, 2, 3) if pw is not None else (1,))}
    tok = tokens(list(streams.values()))
    out = serve(make, reqs, pw)
    steps = [{"op": r["op"], "n": r["n"], "out": [] if o is None else [tok(row) for row in o]} for r, o in zip(reqs, out)]
    return {"base": base, "streams": {str(g): [tok(row) for row in x] for g, x in streams.items()}, "steps": steps}


def run(ctx):
    rng = ctx.rng
    # every way of reading the first samples, in the model and in every kind of source
    total, nreq = ctx.n(5, 7), ctx.n(4, 5)
    r = ctx.model("Stream", CFG.format(t=total, r=nreq, g="{1,2,3}"))
    ctx.exhaustive = True
    traces, owner = [], []
    all_kinds, pw, _ = kinds(rng)
    for name, make, zero, power in all_kinds:
        ref = {g: np.atleast_2d(np.array(make(g).get_samples(total), float)) for g in ((1, 2, 3) if power else (1,))}
        done = set()
        for o in r.out:
            has_gain = any(q["op"] == "gain" for q in o["reqs"])
            if (has_gain and not power) or (not zero and any(q["n"] == 0 for q in o["reqs"])) or str(o["reqs"]) in done:
                continue
            done.add(str(o["reqs"]))
            got = [x for x in limited(serve, make, o["reqs"], pw.get(name)) if x is not None]
            if not got:
                continue
            got = np.concatenate(got, axis=-1)
            want = np.stack([ref[g][:, i - 1] for i, g in o["given"]], axis=-1) if o["given"] else ref[1][:, :0]
            if got.shape != want.shape or not np.allclose(got, want, atol=TOL):
                ctx.violate("stream " + name, f"source '{name}' read as {o['reqs']} gives other samples",
                            {"requests": o["reqs"], "got": got, "want": want})
            ctx.traces += 1
    ctx.notes["model_behaviours_replayed"] = ctx.traces
    # longer histories, judged by the model
    for i in range(ctx.n(6, 60)):
        ks, pw, _ = kinds(rng)
        for name, make, zero, power in ks:
            reqs, n = [], 0
            if i % 3 == 0:      # a long time later
                for m in rng.choice([1, 40, 977, 5000, 8192], size=int(rng.integers(8, 25))):
                    reqs.append({"op": "pass", "n": int(m)})
                    n += int(m)
            for _ in range(int(rng.integers(2, 14))):
                if power and rng.random() < 0.3:
                    reqs.append({"op": "gain", "n": int(rng.integers(1, 4))})
                else:
                    m = int(rng.choice([0, 1, 2, 3, 5, 8, 17, 33])) if zero else int(rng.choice([1, 2, 3, 5, 8, 17, 33]))
                    reqs.append({"op": "get", "n": m})
                    n += m
            traces.append(limited(trace_of, make, reqs, pw.get(name), n + 1))
            owner.append((name, reqs))
    for (name, reqs), v in zip(owner, ctx.judge("StreamTrace", traces, cfg=TR)):
        for f in v["fails"]:
            ctx.violate(f"{f[0]} {name}", f"source '{name}' at request {f[1]} of {reqs}", {"source": name, "requests": reqs})
        ctx.sample({"source": name, "requests": len(reqs), "fails": v["fails"]})
    ctx.assumptions.append("requests of length 0 are left out for the filtered noise sources (the filter library cannot take them)")
