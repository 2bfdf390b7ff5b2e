"""P19: folders of figures, the files that describe a simulation, and configurations."""
import copy
import dataclasses
import datetime
import json
import re
import shutil
from pathlib import Path

import numpy as np

from vlib import simdrv
from vlib.ctx import limited

MODEL = "SPECIFICATION Spec\nCONSTANTS MaxIdx = {i}\n MaxOps = {n}\nVIEW View\nINVARIANTS Fresh Silent Describes Emit\nPROPERTIES Kept\n"
TR = "INIT TInit\nNEXT TNext\nVIEW TView\n"
FIELDS = {"tot_samples": [9, 12, 17], "sim_buffer": [16, 20], "sim_chunk_size": [7, 11], "start_sources_before_0": [True, False],
          "save_source_contributions": [True, False], "array_update_freq": [1, 3], "samplerate": [500, 8000], "c": [343.0, 340.123456789012345, 338.5, 300],
          "reverb": ["none", "direct", "random"], "room_size": [[7, 5, 2.5], [6, 4.1, 3.3333333333333335]], "room_center": [[0, 0, 0], [-1.5, 2.25, 1e-07]],
          "rt60": [0.0, 0.45, 1], "max_room_ir_length": [3, 8], "randomized_ism": [True, False], "extra_delay": [0, 4], "highpass_cutoff": [0.0, 0],
          "export_frequency": [3, 1000], "plot_output": ["pdf", "none", "pdf"], "output_smoothing": [1, 5], "auto_save_load": [True, False]}


class Minute(Exception):
    pass


def stamp():
    t = datetime.datetime.now()
    return f"{t.year}_{t.month:02}_{t.day:02}_{t.hour:02}_{t.minute:02}"


def text(d):
    return {k: shown(v) for k, v in d.items()}


def shown(v):
    return v if type(v) is str else f"{type(v).__name__} {v!r}"


def drive(case):
    for _ in range(4):
        base = Path(case["folder"])
        base.mkdir(parents=True)
        try:
            return attempt(case, base)
        except Minute:
            pass
        finally:
            shutil.rmtree(base, ignore_errors=True)
    raise OSError("the clock runs too fast")


def plainly(md):
    """A description without how its numbers are bracketed."""
    return repr({k: [float(x) if isinstance(x, (int, float)) else x for x in np.ravel(np.array(v, dtype=object))] for k, v in sorted(md.items())})


def attempt(case, base):
    import aspsim.simulator as sim
    import aspsim.array as ar
    import aspsim.fileutilities as fu
    import aspsim.signal.sources as src
    from aspsim.processor import AudioProcessor
    simdrv.no_savefig()
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % (1 << 31))
    figs, sessions = base / "figs here", base / "sessions"
    figs.mkdir()
    sessions.mkdir()
    t0 = stamp()
    pat = re.compile(re.escape("figs_" + t0) + r"_(0|[1-9]\d*)$")

    def num(path):
        if stamp() != t0:
            raise Minute
        path = Path(path)
        m = pat.match(path.name)
        return int(m.group(1)) if m and path.parent == figs else -7

    def setup_with(config_path=None):
        st = sim.SimulatorSetup(base_fig_path=str(figs) if case["as_str"] else figs, session_folder=sessions if case["sessions"] else None,
                                config_path=config_path, rng=np.random.default_rng(1))
        return st

    setup = setup_with()
    info = setup.sim_info
    for k, v in case["cfg"].items():
        setattr(info, k, copy.deepcopy(v))
    made, chosen, sims, saved, known, events = {}, {}, [], [], set(), []

    def look():
        out = []
        for p in sorted(figs.iterdir()):
            d = {"i": num(p), "kind": "user", "cfg": {}, "arrays": {}, "paths": {}, "procs": {}}
            have = {x.name for x in p.iterdir()} if p.is_dir() else set()
            if "config.yaml" in have:
                import yaml
                d["cfg"] = text(yaml.safe_load((p / "config.yaml").read_text()))
                d["kind"] = "copy"
            if "metadata_arrays.json" in have:
                d["kind"] = "sim"
                meta = json.loads((p / "metadata_arrays.json").read_text())
                pos = json.loads((p / "array_pos.json").read_text())
                if set(pos) != set(meta):
                    raise ValueError(f"positions of {set(pos)}, descriptions of {set(meta)}")
                for name, m in meta.items():
                    d["arrays"][name] = {"source": "Source" in m["type"], "type": m["type"], "number": m["number"], "groups": m["number of groups"],
                                         "dynamic": m["dynamic"], "info": plainly(m["source info"]) if "source info" in m else repr("-"), "pos": repr(pos[name])}
                d["paths"] = {k: v["type"] for k, v in json.loads((p / "metadata_paths.json").read_text()).items()}
            if "metadata_processor.json" in have:
                d["procs"] = {"": "a file", **{k: repr(v) for k, v in json.loads((p / "metadata_processor.json").read_text()).items()}}
            out.append(d)
        return out

    class Plain:
        def __init__(self, n):
            self.n = n

        def get_samples(self, num_samples):
            return np.zeros((self.n, num_samples))

    def source(n, tag):
        k = tag % 9
        vec = np.arange(1, n + 1) / 4
        g = np.random.default_rng(tag)
        base = {"number of channels": n}
        if k == 1:
            return src.WhiteNoiseSource(n, vec, g), dict(base, power=vec)
        if k == 2:
            return src.SineSource(n, vec if tag % 2 else .5, 12.5, 100, g), dict(base, power=vec if tag % 2 else .5, frequency=12.5)
        if k == 3:
            return src.BandlimitedNoiseSource(n, vec if tag % 2 else 2.0, (10.0, 20.0) if tag % 4 > 1 else np.array([10., 20.]), 100, g), \
                {**base, "power": vec if tag % 2 else 2.0, "frequency span": (10, 20)}
        if k == 4:
            return src.GoldSequenceSource(n, vec if tag % 2 else 2.0, 5), {**base, "power": vec if tag % 2 else 2.0, "order": 5, "sequence length": 31}
        if k == 5 and n == 1:
            fr = [3.0, 12.5, 20.0]
            return src.MultiSineSource(1, .5, np.array(fr) if tag % 2 else fr, 100, g), dict(base, power=.5, frequency=fr)
        if k == 6 and n == 1:
            taps, state = [2], [1, 0, 1, 1, 0]
            return src.MLS(1, 5, [taps, np.array(taps)][tag % 2], np.array(state) if tag % 3 else None), \
                {**base, "order": 5, "polynomial": taps, "start state": state if tag % 3 else None}
        if k == 7 and n == 1:
            return src.Counter(1, np.int64(tag) if tag % 2 else tag), {**base, "start number": tag}
        if tag % 4 == 2:        # any object with samples, which says nothing about itself
            return Plain(n), {}
        s = simdrv.ListSource(np.zeros((n, 400)))
        s.metadata = {"tag": tag, "more": [tag, 1.5]}
        if tag % 3 == 0:        # of numbers of another kind
            s.metadata = {"tag": np.int64(tag), "more": np.array([tag, 1.5])}
        return s, {"tag": tag, "more": [tag, 1.5]}

    def add(st, name):
        a = made[name]
        p = [np.array(a["pos"][g]) for g in range(len(a["pos"]))]
        p = p if len(p) > 1 else p[0]
        if a["kind"] == "free":
            st.add_free_source(name, p, source(case["n"], a["tag"])[0])
        elif a["kind"] == "ctrl":
            st.add_controllable_source(name, p)
        else:
            st.add_mics(name, p)
        if a.get("regroup"):
            st.arrays[name].set_groups([[k] for k in range(case["n"])])

    def describe(name):
        a = made[name]
        kind = {"free": "FreeSourceArray", "ctrl": "ControllableSourceArray", "mic": "MicArray"}[a["kind"]]
        return {"source": a["kind"] != "mic", "type": kind, "number": case["n"], "groups": case["n"] if a.get("regroup") else len(a["pos"]), "dynamic": False,
                "info": plainly(source(case["n"], a["tag"])[1]) if a["kind"] == "free" else repr("-"), "pos": repr([q for g in a["pos"] for q in g])}

    for op in case["ops"]:
        e = {k: v for k, v in op.items() if k in ("op", "i")}
        what = op["op"]
        if what == "make":
            p = figs / f"figs_{t0}_{op['i']}"
            if p.exists():
                continue
            p.mkdir() if op.get("dir", True) else p.write_text("mine")
        elif what == "drop":
            have = sorted(figs.iterdir())
            if op.get("any"):
                if not have:
                    continue
                p = have[int(rng.integers(len(have)))]
                e["i"] = num(p)
            else:
                p = figs / f"figs_{t0}_{op['i']}"
                if not p.exists():
                    continue
            shutil.rmtree(p) if p.is_dir() else p.unlink()
            # its simulation has no folder any more
            sims = [(s, k) for s, k in sims if k != e["i"]]
        elif what == "ask":
            e["got"] = num(fu.get_unique_folder_name("figs_", figs))
        elif what == "many":
            e["n"] = op["n"]
            e["got"] = [num(p) for p in fu.get_multiple_unique_folder_names("figs_", figs, op["n"])]
        elif what == "change":
            value = copy.deepcopy(op["v"])
            setattr(setup.sim_info, op["key"], value)
            e.update(key=op["key"], v=shown(value))
        elif what == "describe":
            name = op["name"]
            if name not in made:
                made[name] = {"kind": op["kind"], "tag": op["tag"], "pos": op["pos"]}
                add(setup, name)
            elif op["how"] == "group":
                setup.arrays[name].set_groups([[k] for k in range(case["n"])])
                made[name]["regroup"] = True
            elif made[name]["kind"] == "free":
                setup.set_source(name, source(case["n"], op["tag"])[0])
                made[name]["tag"] = op["tag"]
            else:
                continue
            e.update(name=name, d=describe(name))
        elif what == "pair":
            s, m = op["pair"]
            if made.get(s, {}).get("kind") not in ("free", "ctrl") or made.get(m, {}).get("kind") != "mic":
                continue
            if op["t"] == "modified":
                setup.set_path(s, m, np.ones((case["n"], case["n"], 2)))
            elif chosen.get((s, m)) == "modified":
                continue
            else:
                setup.arrays.path_type[s][m] = op["t"]
            chosen[s, m] = op["t"]
            e.update(key=f"{s}->{m}", v=op["t"])
        elif what == "create":
            if not made:
                continue
            if stamp() != t0:
                raise Minute
            s = setup.create_simulator()
            e["got"] = -1 if s.folder_path is None else num(s.folder_path)
            e["sim"] = text(dataclasses.asdict(s.sim_info))
            if s.sim_info.sim_buffer >= 8:
                sims.append((s, e["got"]))
            new = [p for p in sessions.iterdir() if p not in known]
            for p in new:
                known.add(p)
                saved.append((p, e["sim"]))
        elif what == "run":
            if not sims:
                continue
            s, k = sims.pop(int(rng.integers(len(sims))))
            procs = {}
            if op["proc"]:
                class Idle(AudioProcessor):
                    def process(self, num_samples):
                        pass
                proc = Idle(s.sim_info, s.arrays, 4)
                proc.name, proc.metadata = op["proc"], {"mu": 0.25, "list": [1, op["proc"]]}
                if op["single"]:
                    proc.metadata.update(mu=np.float32(0.25), steps=np.array([[1, 2], [3, 4]]), num=np.int64(4))
                s.add_processor(proc if op["single"] else [proc])
                procs = {"": "a file", op["proc"]: repr({"mu": 0.25, "list": [1, op["proc"]], **({"steps": [[1, 2], [3, 4]], "num": 4} if op["single"] else {})})}
            s.run_simulation()
            e.update(i=k, procs=procs)
        elif what == "load":
            full = [p for p in sorted(figs.iterdir()) if (p / "config.yaml").exists()]
            full = [p for p in full if p.is_dir() and (p / "metadata_arrays.json").exists()]
            if "i" in op:
                full = [p for p in full if num(p) == op["i"]]
            if not full:
                continue
            p = full[int(rng.integers(len(full)))]
            e["i"] = num(p)
            p = p / "config.yaml" if op["file"] else p
            setup = setup_with(str(p) if op["str"] else p)
            for name in made:
                add(setup, name)
            for (a, b), t in chosen.items():
                if t == "modified":
                    setup.set_path(a, b, np.ones((case["n"], case["n"], 2)))
                else:
                    setup.arrays.path_type[a][b] = t
        elif what == "restore":
            if not saved:
                continue
            p, c = saved[int(rng.integers(len(saved)))]
            other = setup_with()
            other.sim_info.plot_output = setup.sim_info.plot_output
            if stamp() != t0:
                raise Minute
            other.load_from_path(p)
            e["cfg"] = c
            if text(dataclasses.asdict(other.sim_info)) != c:
                raise ValueError("the restored parameters are others")
        e["now"] = text(dataclasses.asdict(setup.sim_info))
        e["dirs"] = look()
        events.append(e)
    if stamp() != t0:
        raise Minute
    first = dict(text(dataclasses.asdict(sim.SimulatorSetup().sim_info)), **text(case["cfg"]))
    return {"kind": "folder", "cfg": first, "events": events}


def gen(rng, i):
    ops = []
    names = ["a", "b", "m", "n x", "ü"]
    n = 1 if i % 4 == 3 else 2
    pos = lambda: [[[float(x) for x in rng.integers(-4, 5, 3) / 4] for _ in range(k)] for k in ([n] if rng.random() < .6 else [1] * n)]
    for nm, kind in (("a", "free"), ("m", "mic")):
        if rng.random() < .9:
            ops.append({"op": "describe", "name": nm, "kind": kind, "tag": int(rng.integers(54)), "pos": pos()})
    for k in range(int(rng.integers(6, 15))):
        op = str(rng.choice(["make", "drop", "ask", "many", "change", "create", "run", "load", "describe", "pair", "restore"],
                            p=[.1, .1, .08, .08, .14, .22, .06, .05, .08, .05, .04]))
        o = {"op": op}
        if op == "make":
            o.update(i=int(rng.integers(0, 5)) if rng.random() < .9 else 11, dir=bool(rng.random() < .7))
        elif op == "drop":
            o["any"] = True
        elif op == "many":
            o["n"] = int(rng.integers(1, 5))
        elif op == "change":
            key = str(rng.choice(list(FIELDS)))
            key = str(rng.choice([key, "plot_output"], p=[.8, .2]))
            o.update(key=key, v=FIELDS[key][int(rng.integers(len(FIELDS[key])))])
        elif op == "run":
            o.update(proc=str(rng.choice(["", "Unnamed", "lms 1", "ü"])), single=bool(rng.random() < .5))
        elif op == "load":
            o.update(file=bool(rng.random() < .5), str=bool(rng.random() < .5))
        elif op == "describe":
            o.update(name=str(rng.choice(names)), kind=str(rng.choice(["free", "ctrl", "mic"])), tag=int(rng.integers(54)), pos=pos(),
                     how=str(rng.choice(["group", "source"])))
        elif op == "pair":
            o.update(pair=[str(rng.choice(["a", "b", "ü"])), str(rng.choice(["m", "n x"]))], t=str(rng.choice(["none", "direct", "random", "modified"])))
        ops.append(o)
    cfg = {"tot_samples": 9, "sim_buffer": 16, "sim_chunk_size": 7, "reverb": "none", "plot_output": "pdf", "auto_save_load": True, "max_room_ir_length": 3,
           "export_frequency": 1000}
    return {"ops": ops, "n": n, "cfg": cfg, "seed": int(rng.integers(1 << 30)), "as_str": bool(rng.random() < .3), "sessions": bool(rng.random() < .4)}


def from_model(h):
    ops = [{"op": "describe", "name": "s", "kind": "ctrl", "tag": 0, "pos": [[[0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]]},
           {"op": "describe", "name": "m", "kind": "mic", "tag": 0, "pos": [[[0.0, 2.0, 1.0], [1.0, 2.0, 0.0]]]}]
    for o in h["hist"]:
        o = dict(o)
        if o["op"] == "change" and o["key"] == "tot_samples":
            o["v"] = int(o["v"])
        if o["op"] == "load":
            o.update(file=bool(len(ops) % 2), str=False)
        ops.append(o)
    cfg = {"tot_samples": 20, "sim_buffer": 16, "sim_chunk_size": 7, "reverb": "none", "plot_output": "pdf", "auto_save_load": False}
    return {"ops": ops, "n": 2, "cfg": cfg, "seed": 1, "as_str": False, "sessions": False, "model": True}


# --- numbered files, numbers in names, names of processors --------------------------------
def ask(case):
    import aspsim.fileutilities as fu
    import aspsim.simulator as sim
    rng = np.random.default_rng(case["seed"])
    qs = []
    if case["kind"] == "numbers":
        for k in range(12):
            folder = Path(case["folder"]) / str(k)
            folder.mkdir(parents=True)
            pre, suf = str(rng.choice(["filt_", "a b_", "x_1_", "_"])), str(rng.choice([".npz", ".pdf", ".x"]))
            have = sorted({int(x) for x in rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 101, 1000], size=int(rng.integers(0, 6)))})
            for x in have:
                (folder / f"{pre}{x}{suf}").write_text("")
            for extra in ("filtz_7", "notes", "filt_x7", pre + "a", "z" + pre + "2000", pre + "5_5"):
                if rng.random() < .4:
                    (folder / (extra + suf)).write_text("")
            cur = int(rng.choice(have)) if have and rng.random() < .7 else int(rng.integers(0, 120))
            got = fu.get_highest_numbered_file(folder, pre, suf)
            high = -1
            if got is not None:
                high = int(Path(got).name[len(pre):-len(suf)]) if Path(got).parent == folder and Path(got).exists() else -5

            def nums(fs):
                return [int(Path(f).stem[len(pre):]) if Path(f).exists() else -5 for f in fs]
            how = bool(rng.random() < .5)
            args = (folder, f"{pre}{cur}" if how else pre[:-1], cur)
            q = {"have": have, "cur": cur, "highest": high, "earlier": [], "refused": False}
            try:
                q["earlier"] = nums(fu.find_all_earlier_files(*args, name_includes_idx=how))
            except ValueError:
                q["refused"] = True
            q["lenient"] = nums(fu.find_all_earlier_files(*args, name_includes_idx=how, error_if_future_files_exist=False))
            qs.append(q)
            shutil.rmtree(folder)
    elif case["kind"] == "latest":
        # plots of the nested kind: a folder for each, and when a later one is made only the picture of an earlier one stays
        from aspsim.diagnostics.plot import delete_earlier_tikz_plot
        for k in range(6):
            folder = Path(case["folder"]) / str(k)
            folder.mkdir(parents=True)
            names = ["a", "a_1", "b c"]
            order = []
            at = {n: 0 for n in names}
            for _ in range(int(rng.integers(1, 9))):
                n = int(rng.integers(0, 3))
                at[names[n]] += int(rng.choice([1, 5, 9, 90]))
                full = f"{names[n]}_{at[names[n]]}"
                order.append([n + 1, at[names[n]]])
                (folder / full).mkdir()
                for f in [full + ".tex", full + ".pdf"] + [f"{full}-{j:03}.tsv" for j in range(int(rng.integers(0, 3)))]:
                    (folder / full / f).write_text(full)
                if rng.random() < .3:
                    (folder / f"other{len(order)}.npz").write_text("")
                delete_earlier_tikz_plot(folder, full)
            delete_earlier_tikz_plot(folder, "no number")
            nested, flat, odd = [], [], 0
            for f in folder.iterdir():
                stem, _, num = f.stem.rpartition("_")
                if f.suffix == ".npz":
                    continue
                if stem not in names or not num.isdigit() or (f.is_file() and (f.suffix != ".pdf" or f.read_text() != f.stem)):
                    odd += 1
                    continue
                (nested if f.is_dir() else flat).append([names.index(stem) + 1, int(num)])
                if f.is_dir() and not ((f / (f.name + ".pdf")).exists() and (f / (f.name + ".tex")).exists()):
                    odd += 1
            if sum(f.suffix == ".npz" for f in folder.iterdir()) != sum(1 for f in folder.glob("other*")):
                odd += 1
            qs.append({"order": order, "nested": nested, "flat": flat, "odd": odd})
            shutil.rmtree(folder)
    elif case["kind"] == "meta":
        from aspsim import saveloadsession as sess
        for k in range(6):
            folder = Path(case["folder"]) / str(k)
            folder.mkdir(parents=True)
            (folder / "to").mkdir()
            given = []
            for _ in range(int(rng.integers(0, 5))):
                d = {str(rng.choice(["a", "b", "c d", "e"])): int(rng.integers(0, 50)) for _ in range(int(rng.integers(0, 4)))}
                given.append(d)
                sess.add_to_sim_metadata(folder, d)
            if not given:
                sess.copy_sim_metadata(folder, folder / "to")       # nothing to copy
                got = {} if not any((folder / "to").iterdir()) else {"odd": 1}
            else:
                got = json.loads((folder / "metadata_sim.json").read_text())
                sess.copy_sim_metadata(folder, folder / "to")
                if json.loads((folder / "to" / "metadata_sim.json").read_text()) != got or not (folder / "metadata_sim.json").exists():
                    got = {"odd": 2}
            qs.append({"given": [[[a, b] for a, b in d.items()] for d in given], "got": [[a, b] for a, b in got.items()]})
            shutil.rmtree(folder)
    elif case["kind"] == "index":
        for _ in range(40):
            digits = [int(x) for x in rng.integers(0, 10, int(rng.integers(0, 7)))]
            if len(digits) > 1 and digits[0] == 0:
                digits[0] = 1
            name = str(rng.choice(["abc_", "a1_", "5x", "", "ü"])) + "".join(map(str, digits))
            got = fu.find_index_in_name(name)
            qs.append({"digits": digits, "got": -1 if got is None else int(got)})
    else:
        class P:
            def __init__(self, name):
                self.name = name
        for _ in range(30):
            names = [str(rng.choice(["a", "b", "a 1", "a 2", "a 1 1", "b 1", ""])) for _ in range(int(rng.integers(1, 7)))]
            ps = [P(n) for n in names]
            sim.set_unique_processor_names(ps)
            qs.append({"names": names, "got": [p.name for p in ps]})
    return {"kind": case["kind"], "qs": qs, "cfg": {}}


def one(case):
    return limited(drive, case, seconds=60) if "ops" in case else limited(ask, case, seconds=60)


def run(ctx):
    r = ctx.model("Files_MC", MODEL.format(i=ctx.n(2, 3), n=ctx.n(4, 5)))
    ctx.exhaustive = True
    emitted = r.out
    if len(emitted) > ctx.n(150, 2000):
        emitted = [emitted[k] for k in ctx.rng.choice(len(emitted), ctx.n(150, 2000), replace=False)]
    cases = [from_model(h) for h in emitted]
    cases += [gen(ctx.rng, i) for i in range(ctx.n(150, 1500))]
    cases += [{"kind": k, "seed": int(ctx.rng.integers(1 << 30))} for k in ("numbers", "index", "names", "latest", "meta") for _ in range(ctx.n(6, 40))]
    for k, c in enumerate(cases):
        c["folder"] = str(ctx.scratch / f"w{k}")
    simdrv.no_savefig()
    kept, traces = [], []
    for c, (st, val) in zip(cases, simdrv.pmap(one, cases, workers=8)):
        if st == "raised":
            ctx.violate("raised", f"{str(c)[:300]}: {val}", c)
        else:
            kept.append(c)
            traces.append(val)
    for c, tr, v in zip(kept, traces, ctx.judge("FilesTrace", traces, cfg=TR)):
        for f in v["fails"]:
            e = tr["events"][f["at"] - 1] if tr["kind"] == "folder" else tr["qs"]
            ctx.violate(f["what"], f"operation {f['at']} {f['op']}: {str({k: v for k, v in e.items() if k not in ('now',)} if isinstance(e, dict) else e)[:500]}", {"case": c, "fail": f})
        ctx.sample({"ops": [o["op"] for o in c.get("ops", [])] or c["kind"], "fails": v["fails"]})
    ctx.notes["model_behaviours_replayed"] = len(emitted)
    ctx.notes["folder_histories"] = sum("ops" in c for c in kept)
    ctx.assumptions.append("folder names carry the minute; a history during which the minute changes is repeated")
