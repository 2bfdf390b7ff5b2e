"""P14: simulators are independent of each other and of later changes to the setup."""
import os
import pickle

import numpy as np

from vlib import simdrv

MODEL = ("SPECIFICATION Spec\nCONSTANTS Slots = {{1,2}}\n Values = {{1,2}}\n MaxSims = {s}\n MaxOps = {n}\n"
         "INVARIANTS Isolated\nPROPERTIES RunsTouchNothingElse\n")
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"
# slot: number of values
SLOTS = {"data": 3, "path": 3, "pos": 3, "spos": 2, "c": 3, "xdelay": 3, "irlen": 3, "tot": 3, "buffer": 2, "s0": 2, "room": 3, "center": 2,
         "seed": 3, "rt60": 2, "type": 4, "hp": 2, "freq": 2, "default": 2}
POKES = ["data", "path", "tot", "seed"]
HOWS = {"data": 2, "path": 2, "pos": 2, "room": 2, "center": 2}     # ways to change: anew, or in place


def gen(rng, i):
    setups = [{s: 0 for s in SLOTS}, {s: int(rng.integers(n)) for s, n in SLOTS.items()}]
    use = list(rng.choice(list(SLOTS), size=5, replace=False)) + ["data", "c"]
    ops, ran = [], []
    for _ in range(int(rng.integers(6, 14))):
        op = str(rng.choice(["set", "create", "poke", "run"], p=[.38, .25, .1, .27]))
        if op == "set":
            s = str(rng.choice(use))
            ops.append({"op": "set", "i": int(rng.integers(1, 3)), "slot": s, "v": int(rng.integers(SLOTS[s])), "how": int(rng.integers(HOWS.get(s, 1)))})
        elif op == "create" and len(ran) < 4:
            ops.append({"op": "create", "i": int(rng.integers(1, 3))})
            ran.append(False)
        elif op in ("poke", "run"):
            ok = [k for k, r in enumerate(ran) if not r]
            if ok:
                k = int(rng.choice(ok))
                if op == "run":
                    ran[k] = True
                    ops.append({"op": "run", "k": k + 1})
                else:
                    s = str(rng.choice(POKES))
                    ops.append({"op": "poke", "k": k + 1, "slot": s, "v": int(rng.integers(SLOTS[s]))})
    ops += [{"op": "run", "k": int(k) + 1} for k in rng.permutation([k for k, r in enumerate(ran) if not r])]
    return {"setups": setups, "ops": ops, "moving": bool(rng.random() < .7)}


def value(slot, v):
    r = np.random.default_rng(100 + v)
    return {"data": lambda: r.normal(size=(1, 80)), "path": lambda: r.normal(size=(1, 1, 4)),
            "pos": lambda: np.array([[.5 + .2 * v, .3, .1]]), "spos": lambda: np.array([[-1. + .3 * v, 0, 0]]),
            "c": lambda: [343., 300., 360.][v], "xdelay": lambda: [3, 4, 6][v], "irlen": lambda: [8, 11, 14][v],
            "tot": lambda: [12, 15, 19][v], "buffer": lambda: [8, 13][v], "s0": lambda: bool(v),
            "room": lambda: [4.4 + .3 * v, 3.5, 2.5], "center": lambda: [.1 * v, 0., 0.], "seed": lambda: v, "rt60": lambda: [0., .13][v],
            "type": lambda: ["ism", "none", "direct", "modified"][v], "hp": lambda: [0., 70.][v], "freq": lambda: [1, 4][v],
            "default": lambda: ["ism", "direct"][v]}[slot]()


INFO = {"c": "c", "xdelay": "extra_delay", "irlen": "max_room_ir_length", "tot": "tot_samples", "s0": "start_sources_before_0",
        "room": "room_size", "center": "room_center", "rt60": "rt60", "hp": "highpass_cutoff", "freq": "array_update_freq", "default": "reverb"}


def change(setup, slot, v, how=0):
    from aspsim.signal import sources
    x = value(slot, v)
    if slot in INFO:
        if how and slot in ("room", "center"):
            getattr(setup.sim_info, INFO[slot])[:] = x
        else:
            setattr(setup.sim_info, INFO[slot], x)
    elif slot == "buffer":
        setup.sim_info.sim_buffer, setup.sim_info.sim_chunk_size = x, 21 - x
    elif slot == "data":
        if how:
            setup.arrays["s"].source.data[...] = x
        else:
            setup.set_source("s", simdrv.ListSource(x))
    elif slot == "seed":
        setup.set_source("w", sources.WhiteNoiseSource(1, 1., np.random.default_rng(x)))
    elif slot == "path":
        if how:
            setup.arrays.paths["s"]["m1"][...] = x
        else:
            setup.set_path("s", "m1", x)
    elif slot == "type":
        # a path that was given stays given: so this is for another one, not given
        if x == "modified":
            setup.arrays.path_type["w"].pop("m2", None)
        else:
            setup.arrays.set_path_types({"w": {"m2": x}})
    elif slot in ("pos", "spos"):
        a = setup.arrays["m2" if slot == "pos" else "s"]
        if how:
            a.pos[...] = x
        else:
            a.pos = x


def build(vec, moving):
    import aspsim.simulator as sim
    import aspsim.room.trajectory as tr
    setup = sim.SimulatorSetup(rng=np.random.default_rng(0))
    info = setup.sim_info
    info.plot_output, info.auto_save_load, info.samplerate, info.save_source_contributions = "none", False, 700, True
    info.export_frequency = 1000
    from aspsim.signal import sources
    setup.add_free_source("s", value("spos", vec["spos"]), simdrv.ListSource(value("data", vec["data"])))
    setup.add_free_source("w", np.array([[1., 1., .5]]), sources.WhiteNoiseSource(1, 1., np.random.default_rng(0)))
    setup.add_mics("m1", np.array([[0., 1., 0]]))
    setup.add_mics("m2", value("pos", vec["pos"]))
    if moving:
        setup.add_mics("m3", tr.LinearTrajectory([[.7, .2, .1], [1.2, .4, .2], [.8, -.5, 0]], .03, 700))
    for s in SLOTS:
        change(setup, s, vec[s])
    return setup


def run(ctx):
    ctx.model("Copies_MC", MODEL.format(s=2, n=ctx.n(5, 7)))
    ctx.exhaustive = True
    simdrv.warm(True)
    cases = [gen(ctx.rng, i) for i in range(ctx.n(110, 1500))]
    traces, owner = [], []
    for case, (st, val) in zip(cases, simdrv.pmap(run_one, cases)):
        if st == "raised":
            ctx.violate("raised", f"the code raised {val}", {"case": case, "raised": val})
        else:
            traces.append(val)
            owner.append(case)
    for case, tr, v in zip(owner, traces, ctx.judge("CopiesTrace", traces, cfg=TR) if traces else []):
        for f in v["fails"]:
            ctx.violate(f[0], f"the run at operation {f[1]} is not that of its simulator on its own: "
                        f"{[(e['op'], e.get('i') or e.get('k'), e.get('slot', ''), e.get('v', '')) for e in tr['ops'][:f[1]]]}",
                        {"case": case, "trace": tr, "fails": v["fails"]})
        ctx.sample({"ops": [e["op"] for e in tr["ops"]], "fits": [e["fits"] for e in tr["ops"] if e["op"] == "run"], "fails": v["fails"]})
    ctx.notes["runs_compared"] = sum(e["op"] == "run" for t in traces for e in t["ops"])
    ctx.notes["runs_with_one_fit"] = sum(len(e.get("fits", [])) == 1 for t in traces for e in t["ops"])


def result(simulator):
    import aspsim.diagnostics.diagnostics as dia
    rec = []
    for a in list(simulator.arrays):
        d = dia.RecordSignal(a.name, simulator.sim_info, 1, export_func="npz")
        simulator.diag.add_diagnostic(a.name, d)
        rec.append(d)
    simulator.run_simulation()
    return [np.atleast_2d(np.asarray(d.get_output(), dtype=float)) for d in rec] + \
        [np.asarray(p, dtype=float)[0, 0] for s, m, p in simulator.arrays.iter_paths() if m.name != "m3"]


def isolated(fn):
    """fn() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:      # noqa: BLE001
                out = ("raised", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=1e-9, equal_nan=True) for x, y in zip(a, b))


def run_one(case):
    simdrv.no_savefig()
    refs = []

    def ref(vec):
        key = {s: vec[s] for s in SLOTS}
        if key not in refs:
            refs.append(key)
    # the vectors that could be meant: those of the model, and those of every other moment
    now = [dict(v) for v in case["setups"]]
    sims = []
    for o in case["ops"]:
        if o["op"] == "set":
            now[o["i"] - 1][o["slot"]] = o["v"]
        elif o["op"] == "create":
            sims.append(dict(now[o["i"] - 1]))
        elif o["op"] == "poke":
            sims[o["k"] - 1][o["slot"]] = o["v"]
        else:
            ref(sims[o["k"] - 1])
            ref(now[0])
            ref(now[1])
    want = []
    for vec in refs:
        st, val = isolated(lambda: result(build(vec, case["moving"]).create_simulator()))
        want.append(val if st == "ok" else [])
        if st != "ok":
            raise RuntimeError(val)
    real = [build(v, case["moving"]) for v in case["setups"]]
    made, trace = [], []
    for o in case["ops"]:
        e = dict(o)
        if o["op"] == "set":
            change(real[o["i"] - 1], o["slot"], o["v"], o["how"])
        elif o["op"] == "create":
            made.append(real[o["i"] - 1].create_simulator())
        elif o["op"] == "poke":
            s = made[o["k"] - 1]
            x = value(o["slot"], o["v"])
            if o["slot"] == "data":
                s.arrays["s"].source.data[...] = x
            elif o["slot"] == "seed":
                from aspsim.signal import sources
                s.arrays["w"].set_source(sources.WhiteNoiseSource(1, 1., np.random.default_rng(x)))
            elif o["slot"] == "path":
                s.arrays.paths["s"]["m1"][...] = x
            else:
                s.sim_info.tot_samples = x
        else:
            got = result(made[o["k"] - 1])
            e["fits"] = [k + 1 for k, w in enumerate(want) if same(got, w)]
        trace.append(e)
    return {"setups": case["setups"], "ops": trace, "refs": refs}
