"""P12: a saved session is used exactly when it matches, and is never in the way."""
import os
import sys
from pathlib import Path

import numpy as np

from vlib import simdrv

MODEL = "INIT MCInit\nNEXT MCNext\nCONSTANTS Variants = {v}\n MaxOps = {n}\nINVARIANTS Single MatchIsEquivalence Stable Emit\n"
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"
VALUES = {"sr": [1000, 1100], "c": [343.0, 338.5], "reverb": ["ism", "random", "direct", "none"],
          "size": [[4.0, 3.0, 2.4], [4.0, 3.0, 2.41], [4.1, 3.0, 2.4]], "center": [[0, 0, 0], [0.0, 0.05, 0.0]],
          "rt60": [0.0, 0.13], "irlen": [16, 17], "rand": [False, True], "xdelay": [6, 7], "hp": [0.0, 40.0]}
FIELD = {"sr": "samplerate", "c": "c", "reverb": "reverb", "size": "room_size", "center": "room_center", "rt60": "rt60",
         "irlen": "max_room_ir_length", "rand": "randomized_ism", "xdelay": "extra_delay", "hp": "highpass_cutoff"}
DIRS = ["omni", "cardioid"]


def gen_setup(rng):
    ns, nm = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    n = int(rng.integers(1, 3))
    d = {k: 0 for k in VALUES}
    d["reverb"] = int(rng.choice([0, 0, 1, 1, 1, 2, 3]))
    d["hp"] = int(rng.random() < .3)
    d["arrays"] = [{"name": f"s{k}", "kind": str(rng.choice(["free", "ctrl"])), "n": n, "pos": k, "dir": 0} for k in range(ns)] + \
                  [{"name": f"m{k}", "kind": str(rng.choice(["mic", "region"], p=[.8, .2])), "n": n, "pos": 3 + k, "dir": 0} for k in range(nm)]
    for a in d["arrays"]:
        a["mov"] = int(rng.integers(1, 4)) if rng.random() < .2 else 0
    d["pairs"] = {}     # only what the user said: a type, or a response
    for s in range(ns):
        for m in range(nm):
            x = rng.random()
            if x < .25:
                d["pairs"][f"s{s}", f"m{m}"] = ["modified", int(rng.integers(1, 3))]
            elif x < .6:
                d["pairs"][f"s{s}", f"m{m}"] = [str(rng.choice(["none", "direct", "random", "random", "ism"])), 0]
    return d


def types(d):
    out = {}
    for s in d["arrays"]:
        for m in d["arrays"]:
            if s["kind"] in ("free", "ctrl") and m["kind"] in ("mic", "region"):
                p = (s["name"], m["name"])
                out[p] = d["pairs"].get(p, [VALUES["reverb"][d["reverb"]], 0])
    return out


def valid(d):
    arr = {a["name"]: a for a in d["arrays"]}
    for (s, m), (t, _) in types(d).items():
        if t == "modified" and (arr[s]["mov"] or arr[m]["mov"]):
            return False
        if t == "direct" and arr[s]["n"] != arr[m]["n"]:
            return False
        if t == "ism" and (arr[s]["dir"] or arr[m]["dir"]):
            return False
    return True


def perturb(rng, d):
    d = {**d, "arrays": [dict(a) for a in d["arrays"]], "pairs": dict(d["pairs"])}
    what = str(rng.choice(list(VALUES) + ["pos", "pos", "n", "kind", "dir", "name", "order", "more", "less", "type", "type", "mod", "mod", "mov", "mov"]))
    a = d["arrays"][int(rng.integers(0, len(d["arrays"])))]
    if what in VALUES:
        d[what] = int(rng.choice([x for x in range(len(VALUES[what])) if x != d[what]]))
    elif what == "pos":
        a["pos"] = (a["pos"] + 10 * int(rng.integers(1, 3))) % 30
    elif what == "n":
        a["n"] = a["n"] % 3 + 1
        d["pairs"] = {p: v for p, v in d["pairs"].items() if a["name"] not in p or v[0] != "modified"}
    elif what == "kind":
        a["kind"] = {"free": "ctrl", "ctrl": "free", "mic": "region", "region": "mic"}[a["kind"]]
    elif what == "mov":
        a["mov"] = (a["mov"] + int(rng.integers(1, 4))) % 4
    elif what == "dir":
        a["dir"] = 1 - a["dir"]
    elif what == "name":
        new = a["name"] + "x"
        d["pairs"] = {tuple(new if z == a["name"] else z for z in p): v for p, v in d["pairs"].items()}
        a["name"] = new
    elif what == "order":
        d["arrays"] = [d["arrays"][k] for k in rng.permutation(len(d["arrays"]))]
    elif what == "more":
        d["arrays"].append({"name": "extra", "kind": str(rng.choice(["mic", "ctrl"])), "n": d["arrays"][0]["n"], "pos": 9, "dir": 0, "mov": 0})
        if len({x["name"] for x in d["arrays"]}) < len(d["arrays"]):
            return None
    elif what == "less":
        d["arrays"] = [x for x in d["arrays"] if x is not a]
        if not types(d):
            return None
        d["pairs"] = {p: v for p, v in d["pairs"].items() if p in types(d)}
    elif what == "type":
        p = list(types(d))[int(rng.integers(0, len(types(d))))]
        d["pairs"][p] = [str(rng.choice(["none", "direct", "random", "ism"])), 0]
    elif what == "mod":
        p = list(types(d))[int(rng.integers(0, len(types(d))))]
        d["pairs"][p] = ["modified", d["pairs"].get(p, [0, 0])[1] % 4 + 1]
    return d if valid(d) else None


def gen(rng, i):
    while True:
        base = gen_setup(rng)
        if valid(base):
            break
    pool = [base]
    for _ in range(int(rng.integers(2, 5))):
        new = perturb(rng, pool[int(rng.integers(0, len(pool)))] if rng.random() < .3 else base)
        if new is not None and rng.random() < .25:
            new = perturb(rng, new)
        if new is not None:
            pool.append(new)
    hist = []
    for _ in range(int(rng.integers(4, 9))):
        op = str(rng.choice(["create", "create", "create", "crash", "plain", "bypath"]))
        hist.append({"op": op, "v": int(rng.integers(0, len(pool))), "at": int(rng.integers(0, 5)), "cut": float(rng.choice([-1, -1, -1, 0, .5, .9, 1, 2, 3, 5])),
                     "irr": int(rng.integers(0, 4))})
    return {"pool": pool, "hist": hist, "seed": int(rng.integers(1 << 30)), "junk": bool(rng.random() < .4), "as_str": bool(rng.random() < .5)}


def gen_model(emitted, variants):
    """A history of Sessions_MC, as operations on real setups."""
    def setup(v):
        return {**{k: 0 for k in VALUES}, "reverb": 1, "size": 1 if v == 3 else 0, "irlen": 1 if v == 5 else 0, "pairs": {},
                "arrays": [{"name": "s", "kind": "free", "n": 1, "pos": 1, "dir": 0, "mov": 0},
                           {"name": "m", "kind": "mic", "n": 1, "pos": 12 if v == 4 else 2, "dir": 0, "mov": 0}]}
    cut = {"none": 0, "torn": .5, "ok": -1}
    return {"pool": [setup(v) for v in range(max(variants) + 1)], "seed": len(str(emitted)), "junk": False, "as_str": False,
            "hist": [{"op": h["o"]["op"], "v": h["o"]["v"], "irr": h["o"]["v"] % 3, "at": {"none": 1, "torn": 2, "ok": 3}[h["o"].get("arr", "ok")],
                      "cut": cut[h["o"].get("cfg", "none")]} for h in emitted],
            "want": [[h["tok"], h["new"]] for h in emitted]}


def build(d, irr, rng, session, save):
    """The real setup. irr: settings that have nothing to do with the responses, and what is played."""
    import aspsim.simulator as sim
    import aspsim.array as ar
    import aspsim.room.region as reg
    import aspsim.room.trajectory as tr
    setup = sim.SimulatorSetup(session_folder=session, rng=np.random.default_rng(3))
    info = setup.sim_info
    for k in VALUES:
        setattr(info, FIELD[k], VALUES[k][d[k]])
    info.auto_save_load = save
    info.plot_output = "none"
    info.tot_samples = 20 + irr
    info.sim_buffer, info.sim_chunk_size = 10 + irr, 12 - irr
    info.start_sources_before_0 = irr == 1
    info.save_source_contributions = irr == 2
    info.export_frequency = 7 + irr
    info.array_update_freq = 1 + irr
    played = {}
    for a in d["arrays"]:
        base = np.random.default_rng(a["pos"] % 10 + 5).uniform(-1, 1, size=(3, 3))[:a["n"]] * [1.5, 1, .8]
        # positions 10 and more: a little away from the base
        base[-1, a["pos"] % 3] += [0, 1e-3, 0.2][a["pos"] // 10]
        start = base
        if a["mov"]:    # away from the same place, one of three ways
            base = tr.Trajectory(lambda n, a=a, start=start: start + n * 1e-3 * np.eye(3)[a["mov"] - 1][None, :])
        if a["kind"] == "free":
            played[a["name"]] = rng.normal(size=(a["n"], 60))
            kw = {}
            if a["dir"]:
                kw = {"directivity_type": [DIRS[a["dir"]]] * a["n"], "directivity_dir": np.tile([[1., 0, 0]], (a["n"], 1))}
            setup.add_array(ar.FreeSourceArray(a["name"], base, simdrv.ListSource(played[a["name"]]), **kw))
            continue
        kw = {}
        if a["dir"]:
            kw = {"directivity_type": [DIRS[a["dir"]]] * a["n"], "directivity_dir": np.tile([[1., 0, 0]], (a["n"], 1))}
        if a["kind"] == "ctrl":
            setup.add_array(ar.ControllableSourceArray(a["name"], base, **kw))
        elif a["kind"] == "mic":
            setup.add_mics(a["name"], base, **kw)
        else:
            setup.add_array(ar.RegionArray(a["name"], reg.Rectangle((1, 1), (0, 0, 0)), base, **kw))
    given = {}
    arr = {a["name"]: a for a in d["arrays"]}
    for (s, m), (t, mod) in d["pairs"].items():
        if t == "modified":
            r = np.random.default_rng((mod + 1) // 2).normal(size=(arr[s]["n"], arr[m]["n"], 5 if mod < 4 else 6))
            if mod == 2:
                r[-1, -1, -1] += 1e-3
            given[s, m] = r
            setup.set_path(s, m, r.copy())
        else:
            setup.arrays.set_path_types({s: {m: t}})
    return setup, played, given


def vector(d):
    out = {k: (VALUES[k][d[k]] if k == "reverb" else d[k]) for k in VALUES}
    out["rand"] = int(out["rand"])
    out["dims"] = 3
    out["arrays"] = [{k: v for k, v in a.items() if k != "mov"} for a in d["arrays"]]
    out["pairs"] = [[s, m, t, mod] for (s, m), (t, mod) in sorted(types(d).items())]
    return out


def child(fn, at, session, seed):
    """fn in a process of its own, which ends before the at-th time that it writes something (at < 0: never)."""
    pid = os.fork()
    if pid:
        os.waitpid(pid, 0)
        return
    try:
        np.random.seed(seed)
        count = [0]
        root = str(session)

        def hook(event, args):
            if event == "open":
                if not str(args[0]).startswith(root) or not (args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    return
            elif event not in ("os.mkdir", "os.rename") or not str(args[0]).startswith(root):
                return
            if count[0] == at:
                os._exit(1)
            count[0] += 1
        sys.addaudithook(hook)
        fn()
    finally:
        os._exit(0)


def run_one(case):
    import aspsim.simulator as sim
    simdrv.no_savefig()
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % (1 << 31))
    session = Path(case["folder"])
    session.mkdir(parents=True)
    if case["junk"]:
        (session / "notes.txt").write_text("none")
        (session / "aaa_empty").mkdir()
        (session / "session_old").mkdir()
        (session / "session_old" / "config.yaml").write_text("tot_samples: 3\n")
        (session / "zzz").mkdir()
        (session / "zzz" / "arrays.pickle").write_bytes(b"\x80\x04junk")
    arg = str(session) if case["as_str"] else session
    tokens = {}
    reference = {}

    def toks_of(paths, d):
        out = []
        for (s, m), (t, _) in sorted(types(d).items()):
            if t == "random":
                p = np.ascontiguousarray(paths[s][m])
                out.append([s, m, tokens.setdefault((p.shape, p.tobytes()), len(tokens) + 1)])
        return out

    def right(paths, d, given):
        """The names of the kinds of responses that are not what they must be."""
        bad = set()
        arr = {a["name"]: a for a in d["arrays"]}
        for (s, m), (t, _) in types(d).items():
            p = np.asarray(paths[s][m])
            shape = (arr[s]["n"], arr[m]["n"])
            if t == "modified":
                ok = p.shape == given[s, m].shape and np.array_equal(p, given[s, m])
            elif t == "random":
                ok = p.shape == shape + (VALUES["irlen"][d["irlen"]],)
            elif VALUES["rand"][d["rand"]] and t == "ism":
                ok = p.shape[:2] == shape
            else:
                key = str(sorted(vector(d).items(), key=str)) + s + m
                if key not in reference:
                    st, _, _ = build(d, 0, rng, None, False)
                    z = st.create_simulator().arrays.paths
                    for (s2, m2) in types(d):
                        reference[str(sorted(vector(d).items(), key=str)) + s2 + m2] = np.asarray(z[s2][m2])
                r = reference[key]
                ok = p.shape == r.shape and np.allclose(p, r, rtol=0, atol=1e-9)
            if not ok:
                bad.add("response " + t)
        return sorted(bad)

    def moved(simulator, d):
        """Whether each array goes its own way, and its responses with it; what does not move stays."""
        before = {p: np.array(simulator.arrays.paths[p[0]][p[1]]) for p in types(d)}
        st, _, given = build(d, 0, rng, None, False)
        own = st.create_simulator().arrays
        simulator.arrays.update(36)
        own.update(36)
        arr = {a["name"]: a for a in d["arrays"]}
        if not all(np.allclose(simulator.arrays[k].pos, own[k].pos, rtol=0, atol=1e-9) and simulator.arrays[k].dynamic == bool(arr[k]["mov"]) for k in arr):
            return ["positions"]
        bad = set()
        for (s, m), (t, _) in types(d).items():
            new = np.asarray(simulator.arrays.paths[s][m])
            if not arr[s]["mov"] and not arr[m]["mov"]:
                ok = np.array_equal(new, before[s, m])
            elif t == "random" or VALUES["rand"][d["rand"]] and t == "ism":
                ok = new.shape == before[s, m].shape
            else:
                old = np.asarray(own.paths[s][m])
                ok = new.shape == old.shape and np.allclose(new, old, rtol=0, atol=1e-9)
            if not ok:
                bad.add("moving response " + t)
        return sorted(bad)

    def dirs():
        return {x for x in session.iterdir() if x.is_dir()}

    def played_by(simulator, played):
        return all(np.array_equal(np.asarray(simulator.arrays[k].source.data), v) for k, v in played.items())

    trace, stored = [], []
    for h in case["hist"]:
        d = case["pool"][h["v"]]
        before = dirs()
        e = {"op": h["op"], "setup": vector(d), "toks": [], "new": 0, "arr": "ok", "cfg": "ok", "k": 0, "flags": []}
        if h["op"] == "bypath":
            if not stored:
                continue
            k = h["v"] % len(stored)
            path, d, info, sources = stored[k]
            if path is None:
                continue
            setup = sim.SimulatorSetup(rng=np.random.default_rng(3))
            setup.sim_info.plot_output = "none"
            setup.load_from_path(str(path) if h["at"] % 2 else path)
            _, _, given = build(d, 0, rng, None, False)
            if vars(setup.sim_info) != info:
                e["flags"].append("configuration")
            setup.sim_info.auto_save_load = False
            simulator = setup.create_simulator()
            e.update(setup=vector(d), k=k + 1, toks=toks_of(simulator.arrays.paths, d))
            e["flags"] += right(simulator.arrays.paths, d, given)
            if [x["name"] for x in d["arrays"] if x["name"] not in simulator.arrays]:
                e["flags"].append("arrays")
            elif not played_by(simulator, sources):
                e["flags"].append("sources")
            else:
                e["flags"] += moved(simulator, d)
        elif h["op"] == "crash":
            setup, played, _ = build(d, h["irr"], rng, arg, True)
            info = dict(vars(setup.sim_info))
            child(setup.create_simulator, h["at"] if h["at"] < 4 else -1, session, int(rng.integers(1 << 31)))
            made = sorted(dirs() - before)
            e["new"] = len(made)
            if len(made) == 1:
                files = sorted((f for f in made[0].iterdir() if f.is_file()), key=lambda f: f.stat().st_mtime_ns)
                if files and h["cut"] >= 0:
                    data = files[-1].read_bytes()
                    # a part of it, or all but the last few bytes
                    files[-1].write_bytes(data[:int(len(data) * h["cut"])] if h["cut"] < 1 else data[:-int(h["cut"])])
                # what is left of it
                setup2 = sim.SimulatorSetup(rng=np.random.default_rng(3))
                setup2.sim_info.plot_output = "none"
                e["arr"] = e["cfg"] = "none"
                try:
                    setup2.load_from_path(made[0])
                    e["toks"] = toks_of(setup2.arrays.paths, d)
                    e["arr"] = "ok"
                    e["cfg"] = "ok" if vars(setup2.sim_info) == info else "torn"
                except Exception:       # noqa: BLE001  unreadable, as expected after a crash
                    pass
                good = e["arr"] == "ok" and e["cfg"] == "ok"
                stored.append((made[0] if good else None, d, info, played))
        else:
            save = h["op"] == "create"
            setup, played, given = build(d, h["irr"], rng, arg, save)
            info = dict(vars(setup.sim_info))
            simulator = setup.create_simulator()
            made = sorted(dirs() - before)
            e.update(new=len(made), toks=toks_of(simulator.arrays.paths, d))
            e["flags"] += right(simulator.arrays.paths, d, given)
            if vars(simulator.sim_info) != info:
                e["flags"].append("configuration")
            if not played_by(simulator, played):
                e["flags"].append("sources")
            e["flags"] += moved(simulator, d)
            for _ in made:
                stored.append((made[0], d, info, played))
        if before - dirs():
            e["flags"].append("lost a session")
        trace.append(e)
    return trace


def run(ctx):
    variants = ctx.n([1, 2, 3, 4], [1, 2, 3, 4, 5])
    r = ctx.model("Sessions_MC", MODEL.format(v="{" + ",".join(map(str, variants)) + "}", n=3), workers=4)
    ctx.exhaustive = True
    emitted = sorted(r.out, key=str)
    pick = ctx.rng.choice(len(emitted), size=min(len(emitted), ctx.n(150, 2500)), replace=False)
    cases = [gen_model(emitted[k], variants) for k in sorted(pick)]
    cases += [gen(ctx.rng, i) for i in range(ctx.n(350, 4000))]
    for k, c in enumerate(cases):
        c["folder"] = str(ctx.scratch / f"sessions{k}")
    traces, owner = [], []
    for case, (st, val) in zip(cases, simdrv.pmap(run_one, cases)):
        if st == "raised":
            ctx.violate("raised", f"the code raised {val}", {"case": str(case), "raised": val})
            continue
        if "want" in case and not any(h["op"] == "crash" for h in case["hist"]):
            seen = [[e["toks"][0][2], e["new"]] for e in val]
            if seen != case["want"]:
                ctx.violate("model", f"the model gives {case['want']}, the code {seen} for {[h['op'] for h in case['hist']]}", {"case": str(case)})
        traces.append(val)
        owner.append(case)
    ops = {}
    for case, tr, v in zip(owner, traces, ctx.judge("SessionsTrace", traces, cfg=TR) if traces else []):
        for e in tr:
            key = e["op"] + (" new" if e["new"] else "") + (f" {e['arr']}/{e['cfg']}" if e["op"] == "crash" and e["new"] else "")
            ops[key] = ops.get(key, 0) + 1
        for f in v["fails"]:
            ctx.violate(f[0], f"'{f[0]}' at event {f[1]} of {[(e['op'], e['new'], [t[2] for t in e['toks']]) for e in tr]}",
                        {"case": str(case), "trace": tr, "fails": v["fails"]})
        ctx.sample({"events": [[e["op"], e["new"], e["arr"], e["cfg"]] for e in tr], "fails": v["fails"]})
    ctx.notes["events"] = ops
    ctx.notes["model_behaviours_replayed"] = len(pick)
    ctx.assumptions += ["one process at a time uses the session folder"]
