"""Drives real setups through histories of Setup.tla and records what they become (P13, P23)."""
import numpy as np

from . import simdrv

MODEL = ("SPECIFICATION Spec\nCONSTANTS Sizes = {{0,1,2}}\n MaxOps = {n}\nVIEW View\n"
         "INVARIANTS UniqueNames EveryArrayHasAPlace GroupsPartition GivenIsUsed MadeIsComplete Emit\nPROPERTIES OnlyThePair MadeStays\n")
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"
TYPES = ["none", "direct", "random", "ism"]
SETTINGS = {"max_room_ir_length": [1, 2, 7, 16], "highpass_cutoff": [0.0, 0.0, 60.0], "extra_delay": [2, 3, 5], "rt60": [0.0, 0.0, 0.13],
            "c": [343.0, 300.0], "room_center": [[0, 0, 0], [0.1, -0.1, 0.0]], "randomized_ism": [False], "samplerate": [500, 800]}


def gen(rng, i, grouping):
    names = ["a", "b", "c", "d"] + (["s~m", "x y", "0"] if i % 4 == 0 else [])
    ops = []
    arrays = {}
    for _ in range(int(rng.integers(4, 15))):
        op = str(rng.choice(["add", "type", "give", "default", "create", "other", "source", "group", "pack"],
                            p=[.34, .12, .12, .06, .12, .08, .04, .08, .04]))
        srcs = [n for n, a in arrays.items() if a["kind"] in ("free", "ctrl")]
        mics = [n for n, a in arrays.items() if a["kind"] not in ("free", "ctrl")]

        def pair():
            x = rng.random()
            if x < .12 or not srcs or not mics:     # perhaps not a source and a microphone at all
                return str(rng.choice(names)), str(rng.choice(names))
            return str(rng.choice(srcs)), str(rng.choice(mics))
        if op == "add":
            name = str(rng.choice(names))
            kind = str(rng.choice(["free", "ctrl", "mic", "mic", "region", "regions", "moving"], p=[.25, .25, .2, .1, .08, .08, .04]))
            grouped = bool(rng.random() < (.6 if grouping else .25)) and kind != "moving"
            groups = [int(x) for x in rng.choice([0, 1, 1, 2, 2, 3], size=int(rng.integers(1, 5 if grouping else 3)) if grouped else 1)]
            if kind == "region":
                groups = [1]        # counted when it is made
            if kind == "regions":
                groups = [1] * int(rng.integers(1, 4))
            if kind == "moving":
                groups = [1]
            o = {"op": "add", "name": name, "kind": kind, "groups": groups, "grouped": grouped,
                 "chans": int(sum(groups) if rng.random() < .85 else rng.integers(0, 4)), "how": int(rng.integers(0, 3)), "spacing": int(rng.integers(1, 4))}
            if name not in arrays and (kind != "free" or o["chans"] == sum(groups)):
                arrays[name] = {"kind": kind, "n": sum(groups)}
            ops.append(o)
        elif op == "type":
            s, m = pair()
            ops.append({"op": "type", "s": s, "m": m, "t": str(rng.choice(TYPES + (["bogus"] if rng.random() < .1 else [])))})
        elif op == "give":
            s, m = pair()
            shape = [arrays.get(s, {"n": 1})["n"], arrays.get(m, {"n": 1})["n"], int(rng.integers(1, 9))]
            x = rng.random()
            form = "array"
            if x < .06:
                shape = shape[:2]
            elif x < .12:
                shape[int(rng.integers(0, 2))] += 1
            elif x < .16:
                shape = [shape[1], shape[0], shape[2]]
            elif x < .19:
                form, shape = "list", []
            ops.append({"op": "give", "s": s, "m": m, "shape": shape, "form": form, "id": len(ops) + 1, "how": int(rng.integers(0, 3))})
        elif op == "default":
            ops.append({"op": "default", "t": str(rng.choice(TYPES))})
        elif op == "other":
            key = str(rng.choice(list(SETTINGS)))
            ops.append({"op": "other", "key": key, "value": int(rng.integers(0, len(SETTINGS[key])))})
        elif op == "source":
            ops.append({"op": "source", "name": str(rng.choice(names)), "chans": int(rng.integers(0, 4))})
        elif op == "group":
            ok = [n for n, a in arrays.items() if a["n"] and a["kind"] not in ("region", "regions")]
            if ok:
                n = str(rng.choice(ok))
                cut = rng.integers(0, 3, size=arrays[n]["n"])
                ops.append({"op": "group", "name": n, "groups": [[int(x) for x in np.nonzero(cut == g)[0]] for g in range(3) if np.any(cut == g)],
                            "as_array": bool(rng.random() < .5)})
        elif op == "pack":
            free = [n for n in names if n not in arrays]
            if len(free) >= 2:
                ops.append({"op": "pack", "s": free[0], "m": free[1], "n": [int(x) for x in rng.integers(1, 3, size=2)], "t": str(rng.choice(TYPES)),
                            "id": len(ops) + 1, "give": int(rng.integers(0, 4))})
                arrays[free[0]] = {"kind": "ctrl", "n": ops[-1]["n"][0]}
                arrays[free[1]] = {"kind": "mic", "n": ops[-1]["n"][1]}
        else:
            ops.append({"op": "create"})
    return {"reverb": str(rng.choice(TYPES)), "ops": ops + [{"op": "create"}], "seed": int(rng.integers(1 << 30))}


def big(ctx):
    """More microphones than are computed at a time."""
    return {"reverb": "ism", "seed": 5, "ops": [
        {"op": "add", "name": "s", "kind": "ctrl", "groups": [2], "grouped": False, "chans": 2, "how": 0, "spacing": 1},
        {"op": "add", "name": "m", "kind": "mic", "groups": [507], "grouped": False, "chans": 0, "how": 0, "spacing": 1}, {"op": "create"}]}


def from_model(h, k):
    ops = []
    for o in h["ops"]:
        o = {x: v for x, v in o.items() if x != "refused"}
        if o["op"] == "add":
            o.update(grouped=True, how=k % 3, spacing=1)
        if o["op"] == "give":
            o.update(form="array", how=k % 3)
        ops.append(o)
    return {"reverb": "random", "ops": ops, "seed": k}


def run_one(case):
    import aspsim.simulator as sim
    import aspsim.array as ar
    import aspsim.room.region as reg
    import aspsim.room.trajectory as trj
    simdrv.no_savefig()
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % (1 << 31))
    setup = sim.SimulatorSetup(rng=np.random.default_rng(0))
    info = setup.sim_info
    info.plot_output, info.auto_save_load, info.reverb = "none", False, case["reverb"]
    info.room_size, info.room_center = [4.4, 3.4, 2.6], [0, 0, 0]
    info.samplerate, info.max_room_ir_length, info.extra_delay, info.rt60 = 500, 7, 3, 0.0
    given, where, kinds, trace, seen, made, extra = {}, {}, {}, [], set(), [], {}

    def positions(n):
        return rng.uniform(-1, 1, size=(n, 3)) * [1.7, 1.2, .9]

    def attempt(fn):
        try:
            fn()
            return False
        except Exception:       # noqa: BLE001  a refusal
            return True

    def plain():
        """The current settings on a setup without arrays."""
        st = sim.SimulatorSetup(rng=np.random.default_rng(0))
        for key in ("samplerate", "c", "max_room_ir_length", "extra_delay", "rt60", "room_size", "room_center", "randomized_ism", "highpass_cutoff"):
            setattr(st.sim_info, key, getattr(info, key))
        st.sim_info.plot_output, st.sim_info.auto_save_load, st.sim_info.reverb = "none", False, "none"
        return st

    def filtered(path):
        if info.highpass_cutoff > 0:
            import scipy.signal as spsig
            sos = spsig.butter(2, info.highpass_cutoff, "highpass", fs=info.samplerate, output="sos")
            z = np.zeros((*path.shape[:-1], info.samplerate))
            return spsig.sosfiltfilt(sos, np.concatenate((z, path, z), axis=-1), axis=-1)[..., info.samplerate:-info.samplerate]
        return path

    def pick(n):
        return range(n) if n <= 20 else sorted({x for x in (0, 1, 17, 498, 499, 500, 501, n - 1) if x < n})

    def observe(simulator, e):
        A = simulator.arrays
        e["sources"], e["mics"] = [a.name for a in A.sources()], [a.name for a in A.mics()]
        e["free"], e["all"] = [a.name for a in A.free_sources()], [a.name for a in A]
        e["combos"] = [[s.name, m.name] for s, m in A.mic_src_combos()]
        e["num"] = [int(a.num) for a in A]
        e["groups"] = []
        for a in A:
            g = [] if a.group_idxs is None else [[int(x) for x in q] for q in a.group_idxs]
            if a.num_groups != max(1, len(g)) and a.group_idxs is not None or (a.group_idxs is None and a.num_groups != 1):
                g = [[-1]]
            e["groups"].append(g)
            if a.pos.shape != where[a.name].shape or not np.allclose(a.pos, where[a.name], atol=1e-12):
                e["flags"].append("positions")
            md = {"type": type(a).__name__, "number": where[a.name].shape[0], "dynamic": kinds[a.name] == "moving", **extra.get(a.name, {})}
            if any(a.metadata.get(x) != v for x, v in md.items()):
                e["flags"].append("metadata")
        # every element of every array that has a response of its own, one by one
        el, want = {}, []
        for s, m, path in A.iter_paths():
            if s.num and m.num and np.asarray(path).shape == (s.num, m.num, info.max_room_ir_length):
                want.append((s, m))
        if want:
            st = plain()
            types = {}
            for s, m in want:
                for x in (s, m):
                    for q in pick(x.num):
                        key = f"{x.name}#{q}"
                        if key not in el:
                            el[key] = 1
                            if x.is_mic:
                                st.add_mics(key, where[x.name][q:q + 1])
                            else:
                                st.add_controllable_source(key, where[x.name][q:q + 1])
                for a in pick(s.num):
                    for b in pick(m.num):
                        types.setdefault(f"{s.name}#{a}", {})[f"{m.name}#{b}"] = "ism"
            st.arrays.set_path_types(types)
            single = st.create_simulator().arrays.paths
        e["pairs"] = []
        for s, m, path in A.iter_paths():
            path = np.asarray(path)
            fits = []
            if path.shape == (s.num, m.num, 1) and not np.any(path):
                fits.append("none")
            if s.num == m.num and path.shape == (s.num, m.num, 1) and np.allclose(path, filtered(np.eye(s.num)[..., None]), atol=1e-12):
                fits.append("direct")
            for (a, b, k), v in given.items():
                if (a, b) == (s.name, m.name) and v.shape == path.shape and np.array_equal(v, path):
                    fits.append(f"given{k}")
            if (s, m) in want:
                if np.all(np.isfinite(path)) and path.tobytes() not in seen and (info.highpass_cutoff > 0 or np.unique(path).size == path.size) \
                        and not (path.size > 60 and not 0.3 < np.var(path) < 3 and info.highpass_cutoff == 0):
                    fits.append("random")
                ref = all(np.allclose(path[a, b], single[f"{s.name}#{a}"][f"{m.name}#{b}"][0, 0], rtol=0, atol=1e-9)
                          for a in pick(s.num) for b in pick(m.num))
                if ref:
                    fits.append("ism")
                seen.add(path.tobytes())
            e["pairs"].append({"s": s.name, "m": m.name, "fits": fits})

    for o in case["ops"]:
        e = {**o, "flags": [], "refused": False}
        if o["op"] == "add":
            n = sum(o["groups"])
            name, kind = o["name"], o["kind"]
            if kind in ("region", "regions"):
                d = o["spacing"] * .1
                regs = [reg.Rectangle((.5, .4), (k * 1. - 1, 0, 0), (d, d)) for k in range(len(o["groups"]))]
                parts = [r.equally_spaced_points() for r in regs]
                e.update(groups=[len(p) for p in parts], grouped=True, kind="region")
                pos = parts
                if o["grouped"] and o["how"] == 1:      # positions of one's own
                    pos = [positions(2), positions(1)]
                    e["groups"] = [2, 1]
                arg = regs[0] if kind == "region" and o["how"] == 0 else regs
                place = np.concatenate(pos)

                def add(cls=ar.RegionArray):
                    setup.add_array(cls(name, arg, *([pos] if pos is not parts else [])))
            elif kind == "moving":
                pts = positions(3)
                tj = trj.LinearTrajectory(pts, 1., 500)
                place = pts[:1]

                def add():
                    setup.add_mics(name, tj)
                e["kind"] = "mic"
            else:
                parts = [positions(g) for g in o["groups"]]
                arg = (tuple(parts) if o["how"] == 2 else parts) if o["grouped"] else parts[0]
                place = np.concatenate(parts)

                def add():
                    if kind == "mic":
                        setup.add_mics(name, arg) if o["how"] else setup.add_array(ar.MicArray(name, arg))
                    elif kind == "ctrl":
                        setup.add_controllable_source(name, arg) if o["how"] else setup.add_array(ar.ControllableSourceArray(name, arg))
                    else:
                        src = simdrv.ListSource(np.ones((o["chans"], 5)))
                        setup.add_free_source(name, arg, src) if o["how"] else setup.add_array(ar.FreeSourceArray(name, arg, src))
            e["refused"] = attempt(add)
            if not e["refused"]:
                where[name], kinds[name] = place, kind
                extra[name] = {"number of groups": len(e["groups"])}
                if e["kind"] == "region":
                    extra[name]["region shape"] = "Rectangle" if len(regs) == 1 else "CombinedRegion"
        elif o["op"] == "type":
            e["refused"] = attempt(lambda: setup.arrays.set_path_types({o["s"]: {o["m"]: o["t"]}}))
        elif o["op"] == "give":
            path = rng.normal(size=o["shape"])
            val = path.tolist() if o["form"] == "list" else path.copy()

            def give():
                if o["how"] == 1:
                    setup.arrays.set_prop_paths({o["s"]: {o["m"]: val}})
                elif o["how"] == 2:
                    setup.arrays.set_prop_path(val, o["s"], o["m"])
                else:
                    setup.set_path(o["s"], o["m"], val)
            e["refused"] = attempt(give)
            given[o["s"], o["m"], o["id"]] = path
        elif o["op"] == "default":
            info.reverb = o["t"]
        elif o["op"] == "other":
            setattr(info, o["key"], SETTINGS[o["key"]][o["value"]])
        elif o["op"] == "source":
            e["refused"] = attempt(lambda: setup.set_source(o["name"], simdrv.ListSource(np.ones((o["chans"], 5)))))
            if e["refused"] is False and kinds.get(o["name"]) != "free":
                e["flags"].append("a source for an array that plays none")
        elif o["op"] == "group":
            if o["name"] not in where or where[o["name"]].shape[0] != sum(map(len, o["groups"])):
                continue
            setup.arrays[o["name"]].set_groups([np.array(g) for g in o["groups"]] if o["as_array"] else o["groups"])
            extra.pop(o["name"], None)     # written down when it was made
        elif o["op"] == "pack":
            col = ar.ArrayCollection()
            pos = [positions(x) for x in o["n"]]
            col.add_array(ar.ControllableSourceArray(o["s"], pos[0]))
            col.add_array(ar.MicArray(o["m"], pos[1]))
            if o["give"] != 1:
                col.set_path_types({o["s"]: {o["m"]: o["t"]}})
            if o["give"] in (1, 2):      # a path that is given in the collection, whatever its type
                path = rng.normal(size=(*o["n"], 3))
                col.set_prop_path(path.copy(), o["s"], o["m"])
            if o["s"] in where or o["m"] in where:
                continue
            setup.add_arrays(col)
            for nm, p, kd in ((o["s"], pos[0], "ctrl"), (o["m"], pos[1], "mic")):
                where[nm], kinds[nm], extra[nm] = p, kd, {"number of groups": 1}
                trace.append({"op": "add", "name": nm, "kind": kd, "groups": [len(p)], "grouped": False, "chans": 0, "flags": [], "refused": False})
            e = {"op": "type", "s": o["s"], "m": o["m"], "t": o["t"], "flags": [], "refused": False}
            if o["give"] in (1, 2):
                if o["give"] == 2:
                    trace.append(e)
                e = {"op": "give", "s": o["s"], "m": o["m"], "id": o["id"], "shape": list(path.shape), "flags": [], "refused": False}
                given[o["s"], o["m"], o["id"]] = path
        elif o["op"] == "create":
            out = []
            e["refused"] = attempt(lambda: out.append(setup.create_simulator()))
            if out:
                observe(out[0], e)
        trace.append(e)
    return {"reverb": case["reverb"], "ops": trace}


def check(ctx, clauses, grouping, nmodel, nrandom):
    depth = ctx.n(4, 5)
    r = ctx.model("Setup_MC", MODEL.format(n=depth), workers=6)
    ctx.exhaustive = True
    emitted = sorted(r.out, key=str)
    pick = sorted(ctx.rng.choice(len(emitted), size=min(len(emitted), nmodel), replace=False))
    cases = [from_model(emitted[k], int(k)) for k in pick] + [gen(ctx.rng, i, grouping) for i in range(nrandom)]
    if not grouping:
        cases.append(big(ctx))
    traces, owner = [], []
    for case, (st, val) in zip(cases, simdrv.pmap(run_one, cases)):
        if st == "raised":
            ctx.violate("raised", f"the code raised {val}", {"case": case, "raised": val})
        else:
            traces.append(val)
            owner.append(case)
    count = {}
    for case, tr, v in zip(owner, traces, ctx.judge("SetupTrace", traces, cfg=TR) if traces else []):
        for e in tr["ops"]:
            key = e["op"] + (" refused" if e["refused"] else "")
            count[key] = count.get(key, 0) + 1
            for p in e.get("pairs", []):
                for f in p["fits"]:
                    count["pair " + f.rstrip("0123456789")] = count.get("pair " + f.rstrip("0123456789"), 0) + 1
        for f in v["fails"]:
            if f[0].startswith(tuple(clauses)):
                ctx.violate(f[0], f"'{f[0]}' at operation {f[1]}: {str(tr['ops'][f[1] - 1])[:300]}", {"case": case, "trace": tr, "fails": v["fails"]})
        ctx.sample({"ops": [o["op"] for o in tr["ops"]], "fails": v["fails"]})
    ctx.notes["operations"] = count
    ctx.notes["model_behaviours_replayed"] = len(pick)
