"""P26: frequency responses of the paths of a set-up."""
import numpy as np

from vlib.ctx import limited
from vlib.simdrv import pmap

MC = """INIT MCInit
NEXT Take
CONSTANTS MaxN = {n}
 MaxLen = {l}
 Amp = {a}
INVARIANTS Total Zero Half Energy Emit
"""
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"


def value(acc):
    """The complex number for what a frequency has collected in each direction."""
    n = len(acc)
    return sum(a * np.exp(-2j * np.pi * p / n) for p, a in enumerate(acc))


def build(c):
    import aspsim.array as ar
    from aspsim.simulator import SimulatorSetup
    rng = np.random.default_rng(c["seed"])
    arrays = ar.ArrayCollection()
    made = {}
    for name, kind, num in c["arrays"]:
        pos = rng.integers(-20, 20, (num, 3)) / 10
        made[name] = ar.MicArray(name, pos) if kind == "mic" else ar.ControllableSourceArray(name, pos)
        arrays.add_array(made[name])
    for s, m, kind, length in c["paths"]:
        if kind == "given":
            shape = (made[s].num, made[m].num, length)
            arrays.set_prop_path(rng.integers(-9, 10, shape).astype(float), s, m)
        else:
            arrays.set_path_types({s: {m: kind}})
    arrays.set_default_path_type("none")
    setup = SimulatorSetup()
    setup.sim_info.max_room_ir_length = 4
    arrays.setup_ir(setup.sim_info)
    return arrays


def ask(c):
    arrays = build(c)
    src = [a for a in c["arrays"] if a[1] == "src"]
    mics = [a for a in c["arrays"] if a[1] == "mic"]
    paths = {(s[0], m[0]): np.array(arrays.paths[s[0]][m[0]]) for s in src for m in mics}
    out = []
    for n in c["ns"]:
        tr = {"n": n, "samplerate": c["samplerate"], "refused": False, "times": [], "pairs": [], "resps": [], "extra": False}
        seen = []
        try:
            fp, fr = arrays.get_freq_paths(n, c["samplerate"])
        except NotImplementedError:
            tr["refused"] = True
            out.append((tr, seen))
            continue
        f = np.asarray(fr) * n
        tr["times"] = [int(round(x)) if abs(x - round(x)) < 1e-6 else -1 for x in f.reshape(-1)]
        for (s, m), p in paths.items():
            got = np.asarray(fp.get(s, {}).get(m, np.zeros(0)))
            tr["pairs"].append({"src": p.shape[0], "mic": p.shape[1], "shape": list(got.shape)})
            if got.shape != (n // 2 + 1, p.shape[1], p.shape[0]):
                continue
            for i in range(p.shape[0]):
                for j in range(p.shape[1]):
                    tr["resps"].append([int(x) for x in p[i, j]])
                    seen.append(((s, m, i, j), got[:, j, i].tolist()))
        tr["extra"] = sum(len(d) for d in fp.values()) != len(paths)
        out.append((tr, seen))
    return out


def make_cases(ctx):
    rng = ctx.rng
    out = []
    for t in range(ctx.n(40, 400)):
        arrays = [[f"s{k}", "src", int(rng.integers(1, 4))] for k in range(int(rng.integers(1, 4)))]
        arrays += [[f"m{k}", "mic", int(rng.integers(1, 4))] for k in range(int(rng.integers(1, 4)))]
        arrays = [arrays[k] for k in rng.permutation(len(arrays))]
        paths = []
        for s, ks, ns in arrays:
            for m, km, nm in arrays:
                if ks == "src" and km == "mic":
                    kind = str(rng.choice(["given", "given", "given", "none", "direct"]))
                    if kind == "direct" and ns != nm:
                        kind = "none"
                    paths.append([s, m, kind, int(rng.integers(1, 13))])
        ns = [int(x) for x in rng.choice([1, 2, 3, 4, 6, 7, 8, 10, 12, 16], 3, replace=False)]
        out.append({"arrays": arrays, "paths": paths, "ns": ns, "samplerate": int(rng.choice([8000, 1000, 44100, 7])), "seed": int(rng.integers(2 ** 31))})
    return out


def run(ctx):
    import aspsim.array as ar
    r = ctx.model("Spectrum_MC", MC.format(n=ctx.n(6, 8), l=ctx.n(5, 7), a=1))
    ctx.exhaustive = True
    for o in r.out:
        col = ar.ArrayCollection()
        col.add_array(ar.MicArray("m", np.zeros((1, 3))))
        col.add_array(ar.ControllableSourceArray("s", np.ones((1, 3))))
        col.set_prop_path(np.array(o["resp"], dtype=float)[None, None], "s", "m")
        got = limited(col.get_freq_paths, o["n"], 100)[0]["s"]["m"]
        want = np.array([value(a) for a in o["acc"]])
        if np.shape(got) != (len(want), 1, 1) or not np.allclose(np.reshape(got, -1), want, atol=1e-9):
            ctx.violate("model response", f"{o}: got {np.reshape(got, -1)}, should be {want}", {"model": o})
    ctx.traces += len(r.out)
    ctx.notes["model_behaviours_replayed"] = len(r.out)
    todo, kept, traces = make_cases(ctx), [], []
    for c, (st, val) in zip(todo, pmap(ask, todo)):
        if st == "raised":
            ctx.violate("raised", f"{c}: {val}"[:600], c)
        else:
            for tr, seen in val:
                kept.append((c, seen))
                traces.append(tr)
    verdicts, answers = judge(ctx, traces)
    for t, ((c, seen), tr) in enumerate(zip(kept, traces)):
        for f in verdicts[t]:
            ctx.violate(f, f"{c}, {tr['n']} frequencies: {str(tr)[:300]}", {"case": c, "n": tr["n"]})
        for k, (where, got) in enumerate(seen):
            want = [value(a) for a in answers[t, k]]
            if not np.allclose(got, want, atol=1e-8):
                ctx.violate("value of a frequency", f"{c}, {tr['n']} frequencies, {where}: got {got}, should be {want}", {"case": c, "n": tr["n"], "where": where})
                break
        ctx.sample({"asked": c, "n": tr["n"], "fails": verdicts[t]})
    ctx.notes["responses"] = len(answers)


def judge(ctx, traces):
    import json
    from vlib import tlc
    from vlib.ctx import CheckError
    f = ctx.scratch / "traces.json"
    f.write_text(json.dumps(traces))
    r = tlc.run("SpectrumTrace", TR, env={"TRACE_FILE": str(f)}, timeout=800)
    if not r.ok:
        raise CheckError(r.text[-4000:])
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.traces += len(traces)
    verdicts = {o["tid"] - 1: o["fails"] for o in r.out if "fails" in o}
    answers = {(o["tid"] - 1, o["idx"] - 1): o["acc"] for o in r.out if "acc" in o}
    if len(verdicts) != len(traces) or len(answers) != sum(len(t["resps"]) for t in traces):
        raise CheckError(f"{len(traces)} traces, {len(verdicts)} verdicts, {len(answers)} answers")
    return verdicts, answers
