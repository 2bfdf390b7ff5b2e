"""Figures of real simulations, taken when they are written."""
import shutil
from pathlib import Path

import numpy as np

from . import derived, simdrv
from .simdrv import scaled, sig_name, sig_scale


def plain(text):
    return text.replace("\\", "")


def grab(fig):
    """What a figure shows."""
    import matplotlib.patches as mp
    out = []
    for a in fig.axes:
        lines = [{"label": ln.get_label(), "x": np.asarray(ln.get_xdata(), dtype=float), "y": np.asarray(ln.get_ydata(), dtype=float),
                  "seen": len(ln.get_xdata()) != 1 or ln.get_marker() not in (None, "None", "none", "", " ")} for ln in a.lines]
        shapes = []
        for p in a.patches:
            if isinstance(p, mp.Circle):
                shapes.append([p.get_label(), "round", [*p.center, p.radius, 0.0]])
            elif isinstance(p, mp.Rectangle):
                shapes.append([p.get_label(), "box", [*p.get_xy()[:2], p.get_width(), p.get_height()]])
            else:
                shapes.append([p.get_label(), "other", [0, 0, 0, 0]])
        lg = a.get_legend()
        out.append({"title": a.get_title(), "xlabel": a.get_xlabel(), "lines": lines, "shapes": shapes,
                    "images": [np.asarray(im.get_array(), dtype=float) for im in a.images],
                    "ranges": [[float(v) for v in im.get_clim()] for im in a.images], "extents": [[float(v) for v in im.get_extent()] for im in a.images],
                    "legend": [plain(t.get_text()) for t in lg.get_texts()] if lg else []})
    return out


class Camera:
    """Stands in for what writes and shows figures."""
    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.files, self.shown = [], 0

        def save(fig, fname, *a, **k):
            kind = k.get("format") or Path(fname).suffix[1:]
            f = Path(fname) if Path(fname).suffix or k.get("format") else Path(f"{fname}.{kind or 'png'}")
            f.write_bytes(b"")
            self.files.append({"name": f.stem, "kind": f.suffix[1:], "ok": kind == f.suffix[1:], "dir": str(f.parent), "axes": grab(fig)})

        def show(*a, **k):
            self.shown += 1
        Figure.savefig, plt.show = save, show


def extend(probe):
    def update():
        v, k = float(probe.value), float(probe.k)
        probe.irs = np.array([[[v + s, k + c] for c in (1, 2, 3)] for s in (1, 2)])
        probe.wide = np.array([[v, k, 0], [1, 2, v]])
    process = probe.process

    def both(num_samples):
        process(num_samples)
        update()
    probe.process = both
    update()
    return probe


def create(d, case, info):
    import aspsim.array as ar
    import aspsim.diagnostics.core as dc
    import aspsim.diagnostics.diagnostics as dia
    import aspsim.diagnostics.diagnosticscollection as coll
    kind, exp = d["kind"], d["expspec"]
    exp = exp["freq"] if isinstance(exp, dict) else exp
    kw = {}
    pre = derived.preprocess(d)
    if pre is not None:
        kw["preprocess"] = pre
    if d["form"]:
        kw["export_func"] = {"time": "plot", "spectrum": "spectrum", "ir": "plot", "matshow": "matshow", "field": "image"}[d["plot"]]
    if d["plot"] in ("spectrum", "matshow"):
        kw["export_func"] = d["plot"]
    if kind == "spec":
        kw.pop("export_func", None)
        return coll.SignalPowerSpectrum(sig_name(case, d["sig"]), info, (d["lo"], d["hi"]), len(d["chans"]), d["nperseg"], sig_channels=[c - 1 for c in d["chans"]], **kw)
    if kind in ("signal", "power"):
        kw["export_at"] = exp
        kw["save_at"] = dc.IntervalCounter([tuple(x) for x in d["ivs"]])
        if kind == "signal":
            return dia.RecordSignal(sig_name(case, d["sig"]), info, num_channels=len(d["chans"]), channel_idx=[c - 1 for c in d["chans"]], **kw)
        return dia.SignalPower(sig_name(case, d["sig"]), info, sig_channels=[c - 1 for c in d["chans"]], **kw)
    if kind == "field":
        pos = np.array([[x / 4, y / 4, .5] for x, y in d["at"]])
        arrays = [(ar.MicArray if j % 2 else ar.ControllableSourceArray)(m["label"], np.array([[x / 4, y / 4, 0] for x, y in zip(m["x"], m["y"])])) for j, m in enumerate(d["marks"])]
        return dia.SoundfieldPower(sig_name(case, d["sig"]), pos, (d["lo"], d["hi"]), info, plot_arrays=arrays if arrays or d["form"] else None, **kw)
    if kind == "state":
        if d["fn"] == "vec":
            if d["suffix"]:
                kw["label_suffix_channel"] = d["suffix"]
            return dia.RecordState("duo", 2, info, exp, d["freq"], **kw)
        if kw.get("export_func") == "plot":
            kw.pop("export_func")
        return state(d, info, exp, kw)
    at = {"save_at": exp}
    if d["fn"] == "minus":
        return dia.RecordFilterDifference("ir1", "ir2", info, **at, **kw)
    if d["fn"] == "eig":
        return coll.Eigenvalues(d["attr"], info, abs_value=d["abs"], **at, **kw)
    return dia.RecordFilter({"irs": "irs", "mat": "wide"}[d["fn"]], info, **at, **kw)


def state(d, info, exp, kw):
    import aspsim.diagnostics.diagnostics as dia
    import aspsim.diagnostics.diagnosticscollection as coll
    args = (info, exp, d["freq"])
    if d["fn"] == "power2":
        return dia.StatePower(d["attr"], *args, **kw)
    if d["fn"] == "sum":
        return dia.StateSummary(derived.total, "duo", *args, **kw)
    if d["fn"] == "diff":
        return dia.StateComparison(derived.apart, d["attr"], "one", *args, **kw)
    return coll.EigenvaluesOverTime(d["attr"], (d["lo"], d["hi"]), *args, abs_value=d["abs"], **kw)


def figure(case, d, f):
    mul = d["factor"] * (d["arg"] if d["pre"] == "smooth" else 1)
    xmul = 1
    if d["kind"] == "field":
        mul, xmul = 4, 4
    axes = []
    for a in f["axes"]:
        ys = [derived.undb(ln["y"], d) if d["pre"] == "db" else ln["y"] for ln in a["lines"]]
        axes.append({"titled": d["name"] in plain(a["title"]), "xlabel": a["xlabel"], "legend": a["legend"],
                     "lines": [{"label": ln["label"], "x": scaled(ln["x"], xmul).tolist(), "y": scaled(y, mul).tolist() if d["kind"] != "spec" else [],
                                "seen": bool(ln["seen"])} for ln, y in zip(a["lines"], ys)],
                     "images": [scaled(im, d["factor"]).tolist() for im in a["images"]],
                     "ranges": [scaled(r, d["factor"]).tolist() for r in a["ranges"]], "extents": [scaled(e, 4).tolist() for e in a["extents"]] if d["kind"] == "field" else []})
    stem, _, k = f["name"].rpartition("_")
    return {"k": int(k) if k.isdigit() else -1, "named": bool(stem == d["name"] and f["ok"] and f["kind"] == case["plot_output"]), "axes": axes}


def run_sim(case):
    cam = Camera()
    folder = Path(case["folder"])
    folder.mkdir(parents=True, exist_ok=True)
    simulator = simdrv.make_setup(case, folder).create_simulator()
    info = simulator.sim_info
    log = {"calls": []}
    if case["b"] > 0:
        simulator.add_processor(extend(derived.extend(simdrv.make_probe(simulator, case, log), simulator)))
    for d in case["derived"]:
        simulator.diag.add_diagnostic(d["name"], create(d, case, info))
    simulator.run_simulation()
    obs = {"states": [c["state"] for c in log["calls"]], "state0": case.get("state0", 0), "figs": [], "extra": [], "shown": cam.shown}
    lines = []
    used = [f for f in cam.files if f["name"] == "array_pos"]
    if len(used) > 1:
        obs["extra"].append("several array_pos")
    for d in case["derived"]:
        mine = [f for f in cam.files if f["name"].rpartition("_")[0] == d["name"]]
        used += mine
        obs["figs"].append([figure(case, d, f) for f in mine])
        lines.append([ln["y"].tolist() for f in mine for a in f["axes"] for ln in a["lines"]] if d["kind"] == "spec" else [])
    obs["extra"] += [f["name"] for f in cam.files if not any(f is u for u in used)]
    names = {(f["name"], f["kind"]) for f in used}
    for f in sorted(folder.rglob("*")):
        if f.is_file() and f.name not in ("config.yaml", "array_pos.json") and not f.name.startswith("metadata_") and (f.stem, f.suffix[1:]) not in names:
            obs["extra"].append(f.name)
    if case["plot_output"] == "none":
        obs["extra"] += [f.name for f in folder.iterdir()]
    shutil.rmtree(str(folder), ignore_errors=True)
    tcfg = simdrv.tla_cfg(case)
    tcfg["given"] = True
    tcfg["out"] = [c["out"] for c in log["calls"]]
    keep = ("kind", "name", "sig", "chans", "ivs", "lo", "hi", "fn", "abs", "idxs", "exps", "pre", "arg", "nch", "suffix", "plot", "at", "marks")
    tcfg["derived"] = [{k: d[k] for k in keep if k in d} for d in case["derived"]]
    return {"trace": {"kind": "sim", "mode": case["plot_output"], "cfg": tcfg, "obs": obs}, "lines": lines}


NOTHING = {"B": 2, "C": 2, "tot": 1, "b": 0, "s0": False, "src": [], "mic": [], "rir": [], "aux": 0, "given": False, "out": [], "sigdiag": [],
           "stdiag": [], "instdiag": [], "derived": []}
E = 8          # parts of a metre


def run_arrays(case):
    import aspsim.array as ar
    import aspsim.room.region as reg
    import aspsim.room.trajectory as tr
    from aspsim.signal.sources import WhiteNoiseSource
    from aspsim.simulator import SimulatorSetup
    cam = Camera()
    folder = Path(case["folder"])
    folder.mkdir(parents=True, exist_ok=True)
    setup = SimulatorSetup(base_fig_path=folder if case["with_folder"] else None, rng=np.random.default_rng(1))
    info = setup.sim_info
    info.tot_samples, info.sim_buffer, info.sim_chunk_size = 1000, 200, 200
    info.reverb, info.plot_output, info.auto_save_load, info.samplerate = "none", case["mode"], False, 1000
    info.room_size, info.room_center = case["size"], case["center"]
    info.rt60, info.max_room_ir_length, info.extra_delay = 0.0, 20, 4
    for a in case["arrays"]:
        pos = np.array(a["pts"], dtype=float) / E
        if a["kind"] == "region":
            rs = []
            for g in a["regions"]:
                c, v = np.array(g["c"]) / E, [x / E for x in g["v"]]
                if g["kind"] == "cuboid":
                    rs.append(reg.Cuboid(v[:3], center=c, point_spacing=(.1,) * 3))
                elif g["kind"] == "rectangle":
                    rs.append(reg.Rectangle(v[:2], c, point_spacing=(.1, .1)))
                elif g["kind"] == "disc":
                    rs.append(reg.Disc(v[0], c, point_spacing=(.1, .1)))
                elif g["kind"] == "ball":
                    rs.append(reg.Ball(v[0], c, point_spacing=(.1,) * 3))
                else:
                    rs.append(reg.Cylinder(v[0], v[1], c, point_spacing=(.1,) * 3))
            setup.arrays.add_array(ar.RegionArray(a["name"], rs if len(rs) > 1 or a["listed"] else rs[0], pos=pos if len(pos) else None))
        elif a["kind"] == "mic":
            setup.add_mics(a["name"], [pos[:1], pos[1:]] if len(pos) > 1 and a["listed"] else pos)
        elif a["kind"] == "free":
            setup.add_free_source(a["name"], pos, WhiteNoiseSource(len(pos), 1, np.random.default_rng(1)))
        elif a["kind"] == "moving":
            setup.add_mics(a["name"], tr.LinearTrajectory(pos, .5, 1000))
        else:
            setup.add_controllable_source(a["name"], pos)
    setup.arrays.set_path_types(case["types"])
    sim = setup.create_simulator()
    fig = []
    for f in cam.files:
        a = f["axes"][0] if len(f["axes"]) == 1 else {"lines": [], "shapes": [], "legend": []}
        marks = [{"label": ln["label"], "x": int(x), "y": int(y)} for ln in a["lines"] for x, y in zip(scaled(ln["x"], E), scaled(ln["y"], E))]
        isroom = [s[0] == "" or s[0].startswith("_") for s in a["shapes"]]
        fig.append({"named": f["name"] == "array_pos" and f["ok"] and f["kind"] == case["mode"] and Path(f["dir"]) == Path(sim.folder_path),
                    "marks": marks, "legend": a["legend"],
                    "shapes": [{"label": s[0], "kind": s[1], "at": scaled(s[2], E).tolist()} for s, r in zip(a["shapes"], isroom) if not r],
                    "rooms": [scaled(s[2], E).tolist() for s, r in zip(a["shapes"], isroom) if r]})
    shutil.rmtree(str(folder), ignore_errors=True)
    shapes = []
    for a in case["arrays"]:
        for g in a.get("regions", []):
            if g["kind"] in ("cuboid", "rectangle"):
                at = [g["c"][0] - g["v"][0] // 2, g["c"][1] - g["v"][1] // 2, g["v"][0], g["v"][1]]
            else:
                at = [g["c"][0], g["c"][1], g["v"][0], 0]
            shapes.append({"label": a["name"], "kind": "box" if g["kind"] in ("cuboid", "rectangle") else "round", "at": at})
    marks = [{"label": a["name"], "x": p[0], "y": p[1]} for a in case["arrays"] if a["kind"] != "region" for p in a["pts"]]
    # a walk along the points comes back to the first one
    marks += [{"label": a["name"], "x": a["pts"][0][0], "y": a["pts"][0][1]} for a in case["arrays"] if a["kind"] == "moving" and a["pts"][0] != a["pts"][-1]]
    size, center = [int(x * E) for x in case["size"]], [int(x * E) for x in case["center"]]
    return {"trace": {"kind": "arrays", "mode": case["mode"], "folder": case["with_folder"], "cfg": NOTHING, "types": sorted({t for v in case["types"].values() for t in v.values()}),
                      "marks": marks, "shapes": shapes, "room": [center[0] - size[0] // 2, center[1] - size[1] // 2, size[0], size[1]],
                      "obs": {"fig": fig, "states": [], "state0": 0}}, "lines": []}


def run_case(case):
    return run_arrays(case) if case["what"] == "arrays" else run_sim(case)


# --- cases ---------------------------------------------------------------------
def gen_sim(rng, i, folder):
    R = lambda a, b: int(rng.integers(a, b + 1))
    grid = [4, 6, 6, 9][R(0, 3)] if i % 3 == 0 else None
    case = derived.gen(rng, i, folder, grid=grid)
    case["what"], case["plot_output"] = "sim", ["pdf", "svg", "pdf", "show", "none"][R(0, 4)] if i % 2 else "pdf"
    tot, proc = case["tot"], case["b"] > 0
    case["derived"] = [d for d in case["derived"] if d["kind"] in ("power", "signal", "spec", "state", "inst") and not (d["kind"] == "inst" and d["fn"] == "eig" and d["expspec"] is None)]
    names = [n for n in simdrv.DNAMES if n not in [d["name"] for d in case["derived"]]]
    if grid:
        m = [k + 1 for k, x in enumerate(case["mic"]) if x["n"] == grid][0]
        w = {4: 2, 6: [2, 3][R(0, 1)], 9: 3}[grid]
        xs, ys = sorted(int(x) for x in rng.choice(12, w, replace=False)), sorted(int(x) for x in rng.choice(12, grid // w, replace=False))
        at = [[x, y] for y in ys for x in xs]
        at = [at[k] for k in rng.permutation(grid)]
        lo = R(0, tot - 1)
        hi = R(lo + 1, tot)
        s = sig_scale(case, ["m", m])
        case["derived"].append({"kind": "field", "name": names.pop(), "sig": ["m", m], "chans": list(range(1, grid + 1)), "lo": lo, "hi": hi, "ivs": [[lo, hi]], "exps": [hi],
                                "expspec": [hi], "factor": (hi - lo) * s ** 2, "at": at, "pre": "none", "arg": 1, "nch": grid, "form": R(0, 1),
                                "marks": [{"label": n, "x": rng.integers(-9, 9, 3).tolist(), "y": rng.integers(-9, 9, 3).tolist()} for n in ["one", "other_1"][:R(0, 2)]]})
    if proc:
        for fn in ("irs", "mat"):
            exp, exps = simdrv.gen_exps(rng, tot)
            case["derived"].append({"kind": "inst", "fn": fn, "name": names.pop(), "expspec": exp, "exps": exps, "idxs": exps, "factor": 1, "pre": "none", "arg": 1, "nch": 1,
                                    "form": R(0, 1), "abs": False, "lo": 0, "hi": 0, "chans": []})
    for d in case["derived"]:
        if isinstance(d["expspec"], dict) and len(d["exps"]) > 12:      # a figure takes its time
            d["expspec"] = {"freq": d["expspec"]["freq"] * 5}
            d["exps"] = list(range(d["expspec"]["freq"], tot + 1, d["expspec"]["freq"]))
            if d["kind"] == "inst":
                d["idxs"] = d["exps"]
        d["suffix"] = []
        if d["kind"] == "inst":
            d["plot"] = "matshow" if d["fn"] == "mat" else "ir"
        elif d["kind"] == "field":
            d["plot"] = "field"
        elif d["kind"] == "spec":
            d["plot"] = "spectrum"
        else:
            d["plot"] = "time"
            if d["kind"] in ("power", "signal") and R(0, 5) == 0:
                d["plot"] = "spectrum"
        if d["kind"] == "state" and d["fn"] == "vec":
            d["suffix"] = [[], ["a", "b"], ["x_1", "x_2"], ["c", "c"]][R(0, 3)]
        if d["kind"] in ("power", "signal"):
            d["nch"] = len(d["chans"]) if d["kind"] == "signal" else 1
    return case


def gen_arrays(rng, i, folder):
    R = lambda a, b: int(rng.integers(a, b + 1))
    names = [str(x) for x in rng.permutation(simdrv.WORDS)]
    arrays = []
    for _ in range(R(1, 6)):
        kind = ["mic", "ctrl", "free", "region", "moving", "mic", "ctrl"][R(0, 6)]
        a = {"kind": kind, "name": names.pop(), "listed": bool(R(0, 1)), "pts": [[R(-12, 12), R(-12, 12), R(-4, 4)] for _ in range(R(1, 5))]}
        if kind == "moving":
            a["pts"] = [[0, 0, 0], [R(1, 12), R(-12, 12), R(-4, 4)], [R(-12, -1), R(-12, 12), R(-4, 4)]][:R(2, 3)]
        if kind == "region":
            n = R(1, 3)
            a["regions"] = [{"kind": ["cuboid", "rectangle", "disc", "ball", "cylinder"][R(0, 4)], "c": [-10 + 8 * k, R(-6, 6), 0], "v": [2 * R(1, 2), 2 * R(1, 2), 2 * R(1, 2)]} for k in range(n)]
            for g in a["regions"]:
                if g["kind"] not in ("cuboid", "rectangle"):
                    g["v"] = [R(1, 3), R(1, 4), 0]
            if R(0, 1):
                a["pts"] = []
        arrays.append(a)
    src = [a for a in arrays if a["kind"] in ("ctrl", "free")]
    mic = [a for a in arrays if a["kind"] not in ("ctrl", "free")]
    types = {}
    some = R(0, 2)
    for s in src:
        for m in mic:
            types.setdefault(s["name"], {})[m["name"]] = "none" if some == 0 or R(0, 3) or m["kind"] in ("region", "moving") else ["ism", "random"][R(0, 1)]
    return {"what": "arrays", "arrays": arrays, "types": types, "size": [x / 4 for x in (R(16, 30), R(16, 30), R(8, 12))], "center": [R(-1, 1) / 4, R(-1, 1) / 4, 0.0],
            "mode": ["pdf", "svg", "pdf", "none", "show"][R(0, 4)], "with_folder": R(0, 5) > 0, "folder": folder}
