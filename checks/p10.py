"""P10: moving arrays are where they should be, and samples use the responses of those positions."""
import numpy as np

from vlib import simdrv

MODEL = "INIT MCInit\nNEXT MCNext\nCONSTANTS Freqs = {f}\n Steps = {s}\nINVARIANTS SampleUses SeenByProcessor\n"
TR = "INIT TInit\nNEXT TNext\nVIEW TView\nCONSTANTS Freqs = {1}\n Steps = 0\nINVARIANTS SampleUses SeenByProcessor\n"
TOL = 1e-9


def table(rng, tot, n, slow=False):
    """Positions of n objects at times 0 .. tot: a walk in a box. A slow walk is one of a few micrometres."""
    if slow:
        p = rng.choice([-1, 1], size=(n, 3)) * rng.uniform(.6, .8, size=(n, 3))
        return [p + k * 2e-6 * np.sign(p) for k in range(tot + 301)]
    p = rng.uniform(-1, 1, size=(n, 3)) * [1.5, 1.2, 0.6]
    out = [p]
    for _ in range(tot + 300):
        p = np.clip(p + rng.normal(size=(n, 3)) * 0.15, [-1.8, -1.4, -0.9], [1.8, 1.4, 0.9])
        out.append(p)
    return out


def gen(rng, i):
    tot = int(rng.integers(6, 28))
    B = int(rng.integers(4, 16))
    b = int(rng.choice([0, 1, 2, 3])) if i % 3 else 0
    C = int(rng.integers(max(1, b), 14))
    ns, nm = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    if i % 7 == 0:
        ns, nm = 2, 2
    if i % 19 == 5:     # microphones that move where nothing sounds
        ns = 0
    arrays = [{"name": f"s{k}", "kind": "s", "free": bool(b == 0 or k == 0 or rng.random() < .5), "n": int(rng.integers(1, 3))} for k in range(ns)] + \
             [{"name": f"m{k}", "kind": "m", "n": int(rng.integers(1, 3))} for k in range(nm)]
    for a in arrays:
        a["dyn"] = bool(rng.random() < .55)
        a["traj"] = str(rng.choice(["table", "collection", "linear", "circle"])) if a["dyn"] else "static"
        a["slow"] = bool(i % 4 == 3 and a["dyn"] and a["traj"] in ("table", "collection"))
        if a["traj"] in ("linear", "circle"):
            a["n"] = 1
    if not any(a["dyn"] for a in arrays):
        arrays[int(rng.integers(0, len(arrays)))].update(dyn=True, traj="table")
    order = rng.permutation(len(arrays)).tolist()
    return {"i": i, "tot": tot, "B": max(B, 2 * b, 2), "C": C, "b": b, "f": int(rng.choice([1, 1, 2, 3, 5, 7, 50])), "s0": bool(rng.random() < .3),
            "arrays": arrays, "order": order, "seed": int(rng.integers(0, 1 << 30)), "rt60": 0.12 if i % 9 == 0 else 0.,
            "highpass": 0.}


def run_one(case):
    import aspsim.simulator as sim
    import aspsim.array as ar
    import aspsim.diagnostics.diagnostics as dia
    import aspsim.room.trajectory as tr
    from aspsim.signal import sources
    from aspsim.processor import AudioProcessor
    rng = np.random.default_rng(case["seed"])
    simdrv.no_savefig()
    tot, B, b, f = case["tot"], case["B"], case["b"], case["f"]
    L = tot + 40
    sr = 1000

    class Own(tr.Trajectory):
        """A trajectory that a user has written."""
        def __init__(self, tab):
            self.tab = tab

        def current_pos(self, time_idx):
            return self.tab[time_idx]

    pos_at, pos_arg = [], []
    for a in case["arrays"]:
        tab = table(rng, L, a["n"], a.get("slow", False))
        if a["traj"] == "static":
            pos_arg.append(tab[0])
            pos_at.append(lambda t, tab=tab: tab[0])
        elif a["traj"] == "collection":
            parts = [[x[k:k + 1] for x in tab] for k in range(a["n"])]
            pos_arg.append(tr.TrajectoryCollection([tr.Trajectory(p.__getitem__) if k % 2 else Own(p) for k, p in enumerate(parts)]))
            pos_at.append(lambda t, tab=tab: tab[t])
        elif a["traj"] == "linear":
            pts = rng.uniform(-1, 1, size=(3, 3))
            o = tr.LinearTrajectory(pts, float(rng.choice([0.02, 0.05, 1.])), sr)
            pos_arg.append(o)
            pos_at.append(o.current_pos)
        elif a["traj"] == "circle":
            o = tr.CircularTrajectory((0.3, 1.), (0.1, 0.2, 0.1), 0.05, 0.02, sr)
            pos_arg.append(o)
            pos_at.append(o.current_pos)
        else:
            pos_arg.append(Own(tab) if case["seed"] % 2 else tr.Trajectory(tab.__getitem__))
            pos_at.append(lambda t, tab=tab: tab[t])

    def setup_for(positions, moving):
        setup = sim.SimulatorSetup(rng=np.random.default_rng(1))
        info = setup.sim_info
        info.tot_samples, info.sim_buffer, info.sim_chunk_size = tot, B, case["C"]
        info.start_sources_before_0 = case["s0"]
        info.save_source_contributions = True
        info.array_update_freq = f
        info.samplerate = sr
        info.plot_output = "none"
        info.auto_save_load = False
        info.reverb = "ism"
        info.room_size, info.room_center = [4.4, 3.4, 2.4], [0.1, 0.1, 0.05]
        info.rt60 = case["rt60"]
        info.max_room_ir_length = 24
        info.extra_delay = 3
        info.highpass_cutoff = case["highpass"]
        for k in case["order"]:
            a = case["arrays"][k]
            if a["kind"] == "m":
                setup.add_mics(a["name"], positions[k])
            elif a["free"]:
                setup.add_free_source(a["name"], positions[k], sources.Sequence(a["data"]))
            else:
                setup.add_controllable_source(a["name"], positions[k])
        return setup

    for a in case["arrays"]:
        if a["kind"] == "s" and a["free"]:
            a["data"] = rng.normal(size=(a["n"], L + B + 5))
    setup = setup_for(pos_arg, True)
    simulator = setup.create_simulator()
    info = simulator.sim_info
    times = sorted({0} | set(range(0, tot + b + B + 2, f)))
    calls, out = [], {a["name"]: np.zeros((a["n"], L + B)) for a in case["arrays"]}
    if b:
        class Proc(AudioProcessor):
            def __init__(self):
                super().__init__(simulator.sim_info, simulator.arrays, b)
                self.k = 0

            def process(self, num_samples):
                self.k += 1
                t = self.k * b - 1
                calls.append({"t": t, "fit": [[int(u) for u in times if simulator.arrays[a["name"]].pos.shape == np.shape(pos_at[k](u))
                                               and np.allclose(simulator.arrays[a["name"]].pos, pos_at[k](u), atol=TOL)]
                                              for k, a in enumerate(case["arrays"])]})
                for a in case["arrays"]:
                    if a["kind"] == "s" and not a["free"]:
                        blk = rng.normal(size=(a["n"], b))
                        self.sig[a["name"]][:, self.sig.idx:self.sig.idx + b] = blk
                        out[a["name"]][:, t + 1:t + 1 + b] = blk
        simulator.add_processor(Proc())
    srcs = [k for k in case["order"] if case["arrays"][k]["kind"] == "s"]
    mics = [k for k in case["order"] if case["arrays"][k]["kind"] == "m"]
    rec = {}
    for s in srcs:
        for m in mics:
            name = case["arrays"][s]["name"] + "~" + case["arrays"][m]["name"]
            rec[s, m] = dia.RecordSignal(name, info, num_channels=case["arrays"][m]["n"], export_func="npz")
            simulator.diag.add_diagnostic(name, rec[s, m])
    for m in mics:
        name = case["arrays"][m]["name"]
        rec[m] = dia.RecordSignal(name, info, num_channels=case["arrays"][m]["n"], export_func="npz")
        simulator.diag.add_diagnostic(name, rec[m])
    simulator.run_simulation()
    got = {k: np.atleast_2d(o.get_output()) for k, o in rec.items()}

    # the responses for the positions of each update time, from setups where nothing moves
    resp = {}
    for u in times:
        st = setup_for([pos_at[k](u) for k in range(len(case["arrays"]))], False).create_simulator()
        for s in srcs:
            for m in mics:
                resp[u, s, m] = st.arrays.paths[case["arrays"][s]["name"]][case["arrays"][m]["name"]]
    fit, unique, pairs = [], 0, []
    for s in srcs:
        a = case["arrays"][s]
        # history of the source: sample n is entry n + B
        lead = B if case["s0"] else 1
        x = np.zeros((a["n"], B + tot + 2))
        if a["free"]:
            x[:, B - lead + 1:] = a["data"][:, :B + tot + 2 - (B - lead + 1)]
        else:
            x[:, B:] = out[a["name"]][:, :tot + 2]
        for m in mics:
            am = case["arrays"][m]
            cand = {}
            for u in times if (a["dyn"] or am["dyn"]) else [0]:
                h = resp[u, s, m]
                y = np.zeros((am["n"], tot))
                for n in range(tot):
                    seg = x[:, max(0, B + n - h.shape[2] + 1):B + n + 1][:, ::-1]
                    y[:, n] = np.einsum("sk,smk->m", seg, h[:, :, :seg.shape[1]])
                cand[u] = np.all(np.abs(y - got[s, m]) < TOL, axis=0) if got[s, m].shape == y.shape else np.zeros(tot, bool)
            fit.append([[int(u) for u in cand if cand[u][n]] for n in range(tot)])
            unique += sum(len(z) == 1 for z in fit[-1])
            pairs.append([s + 1, m + 1])
    tot_ok = [[bool(np.all(np.abs(sum(got[s, m][:, n] for s in srcs) - got[m][:, n]) < TOL)) for n in range(tot)] for m in mics]
    return {"mv": {"f": f, "dyn": [a["dyn"] for a in case["arrays"]], "pairs": pairs}, "fit": fit, "sum": tot_ok,
            "calls": calls, "last": tot - 1, "unique": unique}


def run(ctx):
    ctx.model("Moving", MODEL.format(f=ctx.n("{1,2,3,5}", "{1,2,3,4,5,7}"), s=ctx.n(11, 23)))
    ctx.exhaustive = True
    cases = [gen(ctx.rng, i) for i in range(ctx.n(80, 800))]
    simdrv.warm(True)
    traces, owner = [], []
    for case, (st, val) in zip(cases, simdrv.pmap(run_one, cases)):
        for a in case["arrays"]:
            a.pop("data", None)
        if st == "raised":
            ctx.violate("raised", f"the simulation raised {val}", {"case": case, "raised": val})
        else:
            ctx.notes["samples_explained_by_one_time_only"] = ctx.notes.get("samples_explained_by_one_time_only", 0) + val.pop("unique")
            traces.append(val)
            owner.append(case)
    for case, v in zip(owner, ctx.judge("MovingTrace", traces, cfg=TR) if traces else []):
        what = {k: case[k] for k in ("f", "tot", "B", "C", "b", "s0")}
        for f in v["fails"]:
            ctx.violate(f[0], f"clause '{f[0]}' fails at {f[1]} for {what} {[(a['name'], a['traj'], a['n']) for a in case['arrays']]}",
                        {"case": case, "fails": v["fails"]})
        ctx.sample({**what, "fails": v["fails"]})
