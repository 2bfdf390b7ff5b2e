"""Diagnostics that are derived from signals and states, in real simulations."""
import json
import shutil
from fractions import Fraction
from pathlib import Path

import numpy as np

from . import simdrv
from .simdrv import BAD, scaled, sig_name, sig_scale


def extend(probe, simulator):
    """More state for the probe, made of its value v and the number of calls k."""
    def update():
        v, k = float(probe.value), float(probe.k)
        probe.duo = np.array([v, k])
        probe.cpl = np.array([v + 1j * k])
        probe.box["m"] = np.array([[v, k, 0], [k, v, 0], [0, 0, -3.0]])
        probe.herm = np.array([[v, 0, 1j * k], [0, -3.0, 0], [-1j * k, 0, v]])
        probe.ir1 = np.array([[[v, v]]])
        probe.ir2 = np.array([[[k, 2 * k]]])
        probe.one = k
    process = probe.process

    def both(num_samples):
        process(num_samples)
        update()
    probe.process = both
    update()
    return probe


def total(x):
    return np.sum(x)


def apart(a, b):
    return np.sum(a) - b


def squares(x):
    return np.sum(x ** 2)


SCALES = ["db_power", "db_amplitude", "natural_log", "linear"]


def undb(x, d):
    """The value of which the scaling of d makes x."""
    x = np.asarray(x, dtype=float)
    how = SCALES[d["arg"]]
    return x if how == "linear" else np.exp(x) if how == "natural_log" else 10 ** (x / (10 if how == "db_power" else 20))


def preprocess(d):
    from aspsim.diagnostics import preprocessing as pp
    if d["pre"] == "smooth":
        return pp.smooth(d["arg"])
    if d["pre"] == "clip":
        s = d["factor"]
        return pp.clip(-d["arg"] / s, d["arg"] / s)
    if d["pre"] == "db":
        return getattr(pp, SCALES[d["arg"]])
    return None


def channels(chans, form):
    idx = [c - 1 for c in chans]
    if form == 0:
        return idx
    if idx == list(range(idx[0], idx[0] + len(idx))):
        return slice(idx[0], idx[0] + len(idx))
    return np.array(idx)


def create(d, case, info):
    import aspsim.diagnostics.core as dc
    import aspsim.diagnostics.diagnostics as dia
    import aspsim.diagnostics.diagnosticscollection as coll
    kw = {}
    pre = preprocess(d)
    if pre is not None:
        kw["preprocess"] = pre
    kind = d["kind"]
    exp = d["expspec"]
    exp = exp["freq"] if isinstance(exp, dict) else exp
    if kind in ("power", "signal", "ratio"):
        kw.update(export_at=exp, export_func="npz")
        if d["ivs"] != [[0, case["tot"]]] or d["form"]:
            kw["save_at"] = dc.IntervalCounter([tuple(x) for x in d["ivs"]])
        name = sig_name(case, d["sig"])
        if kind == "signal":
            return dia.RecordSignal(name, info, num_channels=len(d["chans"]), channel_idx=[c - 1 for c in d["chans"]], **kw)
        full = d["all"] and not d["form"]
        if kind == "power":
            if not full:
                kw["sig_channels"] = channels(d["chans"], d["form"])
            return dia.SignalPower(name, info, **kw)
        if not full:
            kw["numerator_channels"] = channels(d["chans"], d["form"])
            kw["denom_channels"] = channels(d["overchans"], d["form"])
        return dia.SignalPowerRatio(name, sig_name(case, d["over"]), info, **kw)
    if kind == "field":
        pos = np.stack([np.arange(len(d["chans"])), np.zeros(len(d["chans"])), np.zeros(len(d["chans"]))], axis=1)
        return dia.SoundfieldPower(sig_name(case, d["sig"]), pos, (d["lo"], d["hi"]), info, export_func="npz", **kw)
    if kind == "sum":
        return coll.SignalSummary(sig_name(case, d["sig"]), info, (d["lo"], d["hi"]), summary_func=squares if d["sq"] else None, **kw)
    if kind == "spec":
        sel = {} if d["all"] else {"sig_channels": channels(d["chans"], d["form"])}
        return coll.SignalPowerSpectrum(sig_name(case, d["sig"]), info, (d["lo"], d["hi"]), len(d["chans"]), d["nperseg"], **sel)
    if kind == "state":
        kw.update(export_func="npz")
        args = (info, exp, d["freq"])
        if d["fn"] == "power2":
            return dia.StatePower(d["attr"], *args, **kw)
        if d["fn"] == "sum":
            return dia.StateSummary(total, "duo", *args, **kw)
        if d["fn"] == "diff":
            return dia.StateComparison(apart, d["attr"], "one", *args, **kw)
        if d["fn"] == "vec":
            return dia.RecordState("duo", 2, *args, **kw)
        return coll.EigenvaluesOverTime(d["attr"], (d["lo"], d["hi"]), *args, abs_value=d["abs"], **kw)
    at = {} if exp is None else {"save_at": exp}
    if d["fn"] == "minus":
        return dia.RecordFilterDifference("ir1", "ir2", info, export_func="npz", **at)
    return coll.Eigenvalues(d["attr"], info, export_func="npz", abs_value=d["abs"], **at)


def pair(x):
    """The quotient of two whole numbers."""
    if not np.isfinite(x) or x < 0:
        return [1, 0]
    f = Fraction(float(x)).limit_denominator(2_000_000)
    return [f.numerator, f.denominator] if f.numerator < 2e9 else [BAD, 1]


def same_shape(case, d, x, rows=None):
    """Rows of values (channels x times) in numbers of the specification."""
    x = np.asarray(x, dtype=float)
    if d["pre"] == "db" and rows is None:
        x = undb(x, d)
    mul = d["factor"] * (d["arg"] if d["pre"] == "smooth" and rows is None else 1)
    x = x.reshape(d["nch"], -1) if x.size % d["nch"] == 0 else np.full((1, 1), np.nan)
    if d["kind"] == "ratio":
        return [[pair(v * d["factor"]) for v in r] for r in x]
    return scaled(x, mul).tolist()


def run_case(case):
    simdrv.no_savefig()
    folder = Path(case["folder"])
    folder.mkdir(parents=True, exist_ok=True)
    setup = simdrv.make_setup(case, folder)
    simulator = setup.create_simulator()
    info = simulator.sim_info
    log = {"calls": []}
    if case["b"] > 0:
        probe = extend(simdrv.make_probe(simulator, case, log), simulator)
        simulator.add_processor(probe)
    objs = []
    for d in case["derived"]:
        o = create(d, case, info)
        simulator.diag.add_diagnostic(d["name"], o)
        objs.append(o)
    simulator.run_simulation()
    obs = {"states": [c["state"] for c in log["calls"]], "state0": case.get("state0", 0), "got": [], "files": [], "extra": []}
    out = {}
    for f in sorted(Path(simulator.folder_path).iterdir()):
        if f.name.startswith(("array_pos.", "metadata_")) or f.name == "config.yaml":
            continue
        stem, _, k = f.stem.rpartition("_")
        val = None
        if f.suffix == ".npz":
            with np.load(f) as z:
                if list(z.keys()) == [stem]:
                    val = np.array(z[stem])
        elif f.suffix == ".json":
            js = json.loads(f.read_text())
            if list(js.keys()) == [stem]:
                val = np.array(js[stem])
        elif f.suffix == ".pdf":
            val = np.zeros(0)
        if val is None or not k.isdigit():
            obs["extra"].append(f.name)
        else:
            out.setdefault(stem, []).append((int(k), val, f.suffix))
    spectra = []
    for d, o in zip(case["derived"], objs):
        x = np.asarray(o.get_output() if d["kind"] != "inst" else 0, dtype=float)
        spectra.append(x.tolist() if d["kind"] == "spec" else [])
        if d["kind"] in ("inst", "spec"):
            obs["got"].append([])
        elif d["kind"] in ("field", "sum"):
            obs["got"].append([[d["hi"] - 1, [r[0] for r in same_shape(case, d, x, rows=1)]]])
        else:
            x2 = np.atleast_2d(x)
            has = np.nonzero(~np.all(np.isnan(x2), axis=0))[0]
            rows = same_shape(case, d, x2[:, has], rows=1)
            at = np.asarray(o.time_indices)[has] if d["kind"] == "state" else has
            if d["kind"] == "ratio":
                obs["got"].append([[int(n), rows[0][j]] for j, n in enumerate(at)])
            else:
                obs["got"].append([[int(n), [r[j] for r in rows]] for j, n in enumerate(at)])
        fs = []
        for k, v, suf in sorted(out.pop(d["name"], []), key=lambda z: z[0]):
            ok = suf == {"sum": ".json", "spec": ".pdf"}.get(d["kind"], ".npz")
            if not ok:
                obs["extra"].append(d["name"])
            elif d["kind"] == "spec":
                fs.append({"k": k, "v": []})
            elif d["kind"] == "inst":
                fs.append({"k": k, "v": scaled(np.atleast_2d(v.reshape(-1)), d["factor"]).tolist()})
            else:
                fs.append({"k": k, "v": same_shape(case, d, v)})
        obs["files"].append(fs)
    obs["extra"] += [n for n in out]
    shutil.rmtree(str(folder), ignore_errors=True)
    tcfg = simdrv.tla_cfg(case)
    tcfg["given"] = True
    tcfg["out"] = [c["out"] for c in log["calls"]]
    keep = ("kind", "sig", "chans", "over", "overchans", "ivs", "len", "lo", "hi", "sq", "fn", "abs", "idxs", "exps", "pre", "arg", "nch")
    tcfg["derived"] = [{k: d[k] for k in keep if k in d} for d in case["derived"]]
    return {"trace": {"cfg": tcfg, "obs": obs}, "spectra": spectra}


def spectrum(case, d, samples):
    """The power spectrum of samples as the specification has them."""
    import scipy.signal as spsig
    x = np.array(samples, dtype=float) / sig_scale(case, d["sig"])
    return np.mean(spsig.welch(x, case.get("samplerate", 500), nperseg=d["nperseg"], scaling="spectrum", axis=-1)[1], axis=0)


# --- cases ---------------------------------------------------------------------
def gen(rng, i, folder, grid=None):
    R = lambda a, b: int(rng.integers(a, b + 1))
    proc = i % 4 != 3
    case = simdrv.gen_case(rng, i, proc=proc, big=i % 5 == 0, tot=R(4, 50) if i % 7 else None, grid=grid)
    case["p"], case["q"] = R(0, 1), R(0, 1)
    for s in case["src"]:
        if s["free"]:
            s["data"] = np.clip(s["data"], -3, 3).tolist()
    case["rir"] = [[(np.eye(len(h), len(h[0]), dtype=int) * 2 ** case["q"])[..., None].tolist() if pt == "direct" else
                    [[[int(x) for x in np.clip(taps[:5], -2, 2)] for taps in row] for row in h]
                    for h, pt in zip(hr, pr)] for hr, pr in zip(case["rir"], case["ptype"])]
    case["smooth"] = R(1, 6)
    case["folder"], case["export"], case["plot_output"] = folder, True, "pdf"
    tot = case["tot"]
    sigs = [sg for sg in case["sigs"] if sg[0] != "a" or len(case["auxdim"]) == 1]
    names = [str(x) for x in rng.permutation(simdrv.DNAMES)]
    case["derived"] = []

    def pick():
        sg = sigs[R(0, len(sigs) - 1)]
        n = simdrv.chans_of(case, sg)
        if rng.random() < .5:
            return sg, list(range(1, n + 1)), True
        return sg, [int(x) + 1 for x in rng.permutation(n)[:R(1, n)]], False
    kinds = ["power", "ratio", "field", "sum", "spec", "power", "ratio", "signal"] + (["state", "inst", "state"] * 2 if proc else [])
    for _ in range(R(3, 7)):
        kind = kinds[R(0, len(kinds) - 1)]
        exp, exps = simdrv.gen_exps(rng, tot)
        d = {"kind": kind, "name": names.pop(), "expspec": exp, "exps": exps, "pre": "none", "arg": 1, "nch": 1, "form": R(0, 1), "lo": 0, "hi": 0, "chans": []}
        if kind in ("power", "ratio", "signal"):
            d["sig"], d["chans"], d["all"] = pick()
            d["ivs"] = [[0, tot]] if rng.random() < .4 else simdrv.gen_ivs(rng, tot)
            s2 = sig_scale(case, d["sig"]) ** 2
            d["factor"] = s2 * len(d["chans"])
            if kind == "signal":
                d["factor"], d["nch"] = sig_scale(case, d["sig"]), len(d["chans"])
            if kind == "ratio":
                d["over"], d["overchans"], every = pick()
                if d["over"] == d["sig"] and len(sigs) > 1:
                    d["over"] = sigs[(sigs.index(d["sig"]) + 1) % len(sigs)]
                    d["overchans"], every = list(range(1, simdrv.chans_of(case, d["over"]) + 1)), True
                d["all"] = d["all"] and every
                d["len"] = case["smooth"]
                d["factor"] = d["factor"] / (sig_scale(case, d["over"]) ** 2 * len(d["overchans"]))
            else:
                r = rng.random()
                if r < .3:
                    d["pre"], d["arg"] = "smooth", R(1, 7)
                elif r < .5:
                    d["pre"], d["arg"] = "clip", R(0, 30)
                elif r < .7 and kind == "power":
                    d["pre"], d["arg"] = "db", R(0, 3)
        elif kind in ("field", "sum", "spec"):
            d["sig"], d["chans"], d["all"] = pick()
            if kind != "spec":
                d["chans"] = list(range(1, simdrv.chans_of(case, d["sig"]) + 1))
            d["lo"] = R(0, tot - 1)
            d["hi"] = R(d["lo"] + 1, tot)
            d["ivs"], d["exps"] = [[d["lo"], d["hi"]]], [d["hi"]]
            d["sq"] = bool(R(0, 1))
            s = sig_scale(case, d["sig"])
            d["nch"] = len(d["chans"]) if kind == "field" else 1
            d["factor"] = (d["hi"] - d["lo"]) * (s ** 2 if kind == "field" or d["sq"] else s)
            d["nperseg"] = R(1, d["hi"] - d["lo"])
        else:
            f = R(1, tot) if rng.random() < .5 else min(tot, R(1, 8))
            d["factor"], d["abs"] = 1, bool(R(0, 1))
            d["fn"] = ["power2", "sum", "diff", "vec", "eig", "eig"][R(0, 5)] if kind == "state" else ["minus", "eig"][R(0, 1)]
            d["attr"] = {"power2": ["duo", "cpl"], "sum": ["duo"], "diff": ["ir1", "ir1"], "vec": ["duo"], "minus": ["ir1"],
                         "eig": ["box['m']", "herm"]}[d["fn"]][R(0, 1) if d["fn"] in ("power2", "eig", "diff") else 0]
            if d["attr"] == "duo" and d["fn"] == "power2":
                d["factor"] = 2
            if d["fn"] == "eig":
                d["lo"] = R(0, 2) if kind == "state" else 0
                d["hi"] = R(d["lo"], 2) if kind == "state" else 2
            if kind == "state":
                d["freq"], d["idxs"] = f, list(range(f, tot + 1, f))
                d["nch"] = {"vec": 2, "eig": d["hi"] - d["lo"] + 1}.get(d["fn"], 1)
                r = rng.random()
                if r < .25:
                    d["pre"], d["arg"] = "smooth", R(1, 4)
                elif r < .4:
                    d["pre"], d["arg"] = "clip", R(0, 40)
                elif r < .6 and d["fn"] == "power2":
                    d["pre"], d["arg"] = "db", R(0, 3)
            else:
                d["idxs"] = exps
        case["derived"].append(d)
    return case
