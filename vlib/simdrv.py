"""Drives the real simulator through its public interface and records what it does."""
import contextlib
import io
import json
import multiprocessing as mp
import shutil
import signal
import traceback
from pathlib import Path

import numpy as np

from .ctx import CheckError, from_code

BAD = 1000000007   # stands for a value that is not a representable sample


def scaled(arr, s):
    """Exact integers for values that are multiples of 1/s, BAD for anything else."""
    a = np.asarray(arr, dtype=float) * s
    r = np.round(a)
    bad = ~np.isfinite(a) | (np.abs(a - r) > 1e-6) | (np.abs(r) > 1e8)
    r = np.where(bad, BAD, r)
    return r.astype(int)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def no_savefig():
    """Plots are not what is checked: replace writing them by an empty file of the same name."""
    from matplotlib.figure import Figure

    def fake(fig, fname, *a, **k):
        f = Path(fname)
        if "format" not in k and not f.suffix:
            f = Path(f"{fname}.png")
        f.write_bytes(b"")
    Figure.savefig = fake


def warm(dynamic=False):
    """Compile the numba classes once, so that forked workers inherit them."""
    import aspcore.filter as fc
    f = fc.create_filter(ir=np.ones((1, 1, 2)), sum_over_input=True, dynamic=False)
    f.process(np.ones((1, 1)))
    if dynamic:
        f = fc.create_filter(ir=np.ones((1, 1, 2)), sum_over_input=True, dynamic=True)
        f.process(np.ones((1, 1)))
        f.update_ir(np.ones((1, 1, 2)))


def pmap(func, items, workers=6):
    """Map in forked workers; exceptions come back as ('raised', text)."""
    if len(items) <= 2:
        return _checked([_safe(func, i) for i in items])
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, len(items))) as pool:
        res = pool.starmap(_safe, [(func, i) for i in items], chunksize=max(1, len(items) // (workers * 6)))
    return _checked(res)


def _checked(res):
    for st, val in res:
        if st == "harness":
            raise CheckError("the harness failed\n" + val)
    return res


class Hang(Exception):
    pass


def _hang(*_):
    raise Hang("no end in sight")


LIMIT = 90


def _safe(func, item):
    old = signal.signal(signal.SIGALRM, _hang)
    signal.alarm(LIMIT)
    try:
        with quiet():
            return ("ok", func(item))
    except Exception as e:      # noqa: BLE001  everything the driven code raises is an observation
        what = from_code(e)
        if what is None:
            if isinstance(e, (OSError, MemoryError, ImportError)):
                return ("harness", traceback.format_exc())
            # the answers had a form that the driver cannot even read
            what = f"an answer of an unreadable form ({type(e).__name__}: {str(e)[:200]} {traceback.format_exc()[-300:]})"
        return ("raised", what)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------------
def src_name(cfg, s):
    return cfg["src"][s]["name"]


def mic_name(cfg, m):
    return cfg["mic"][m]["name"]


def sig_name(cfg, sg):
    if sg[0] == "s":
        return src_name(cfg, sg[1] - 1)
    if sg[0] == "m":
        return mic_name(cfg, sg[1] - 1)
    if sg[0] == "c":
        return src_name(cfg, sg[1] - 1) + "~" + mic_name(cfg, sg[2] - 1)
    return "own"


def sig_scale(cfg, sg):
    if sg[0] == "s":
        return 2 ** cfg["p"]
    if sg[0] == "a":
        return 1
    return 2 ** (cfg["p"] + cfg["q"])


class ListSource:
    """A free source that plays a given list of samples."""
    def __init__(self, data):
        self.data = np.asarray(data, dtype=float)
        self.num_channels = self.data.shape[0]
        self.metadata = {}
        self.at = 0

    def get_samples(self, num_samples):
        out = self.data[:, self.at:self.at + num_samples]
        assert out.shape[1] == num_samples
        self.at += num_samples
        return out.copy()

    def reset(self):
        self.at = 0


def make_setup(cfg, folder=None, session=None):
    import aspsim.simulator as sim
    setup = sim.SimulatorSetup(base_fig_path=folder, session_folder=session, rng=np.random.default_rng(1))
    info = setup.sim_info
    info.tot_samples = cfg["tot"]
    info.sim_buffer = cfg["B"]
    info.sim_chunk_size = cfg["C"]
    info.start_sources_before_0 = bool(cfg["s0"])
    info.save_source_contributions = bool(cfg.get("contrib", False))
    info.plot_output = cfg.get("plot_output", "none")
    info.export_frequency = cfg.get("export_frequency", max(1, cfg["tot"]))
    info.auto_save_load = False
    info.reverb = cfg.get("reverb", "none")
    info.array_update_freq = cfg.get("f", 1)
    info.extra_delay = 60
    info.output_smoothing = cfg.get("smooth", 1)

    def pos(n, k):
        return np.stack([np.arange(n) * 0.25 - 1.0, np.full(n, 0.5 * k - 1.0), np.zeros(n)], axis=1)
    for kind, i in cfg.get("order") or ([["s", i] for i in range(len(cfg["src"]))] + [["m", i] for i in range(len(cfg["mic"]))]):
        if kind == "s":
            s = cfg["src"][i]
            if s["free"]:
                setup.add_free_source(s["name"], pos(s["n"], i), ListSource(np.array(s["data"]) / 2 ** cfg["p"]))
            else:
                setup.add_controllable_source(s["name"], pos(s["n"], i))
        else:
            m = cfg["mic"][i]
            setup.add_mics(m["name"], pos(m["n"], i + 7))
    types = {}
    for s in range(len(cfg["src"])):
        for m in range(len(cfg["mic"])):
            pt = cfg["ptype"][s][m] if "ptype" in cfg else "modified"
            if pt == "modified":
                setup.set_path(src_name(cfg, s), mic_name(cfg, m), np.array(cfg["rir"][s][m], dtype=float) / 2 ** cfg["q"])
            else:
                types.setdefault(src_name(cfg, s), {})[mic_name(cfg, m)] = pt
    if types:
        setup.arrays.set_path_types(types)
    return setup


def make_probe(simulator, cfg, log):
    """A processor that records what it is shown, and drives the controllable sources."""
    from aspsim.processor import AudioProcessor
    b, B = cfg["b"], cfg["B"]
    sigs = cfg["sigs"]
    w = cfg["w"]

    class Probe(AudioProcessor):
        def __init__(self):
            super().__init__(simulator.sim_info, simulator.arrays, b)
            self.name = "Probe"
            self.k = 0
            self.value = cfg.get("state0", 0)
            self.vec = np.full(2, float(self.value))
            self.mat = np.full((2, 3), float(self.value))
            self.box = {"inner": [self, np.full((1, 1, 2), float(self.value))]}
            self.filt = type("F", (), {})()
            self.filt.ir = np.full((1, 1, 2), float(self.value))
            if cfg["aux"] and not cfg.get("auxlate"):
                self.sig.create_signal("own", [tuple, list][cfg["b"] % 2](cfg["auxdim"]))

        def prepare(self):
            if cfg["aux"] and cfg.get("auxlate"):
                self.sig.create_signal("own", cfg["auxdim"][0] if len(cfg["auxdim"]) == 1 else [tuple, list][cfg["b"] % 2](cfg["auxdim"]))

        def process(self, num_samples):
            self.k += 1
            i = self.sig.idx
            win, fut = [], False
            for sg in sigs:
                x = np.asarray(self.sig[sig_name(cfg, sg)])
                x = x.reshape(-1, x.shape[-1])
                part = x[:, max(i - w, 0):i]
                if part.shape[1] != w:
                    part = np.full((x.shape[0], w), np.nan)
                win.append(scaled(part, sig_scale(cfg, sg)).tolist())
                if sg[0] in ("m", "c") or (sg[0] == "s" and cfg["src"][sg[1] - 1]["free"]):
                    fut = fut or bool(np.any(x[:, i:] != 0))
            micsum = np.zeros(b, dtype=int)
            for m in range(len(cfg["mic"])):
                micsum = micsum + scaled(self.sig[mic_name(cfg, m)][:, i - b:i], 2 ** (cfg["p"] + cfg["q"])).sum(axis=0)
            out = []
            for s, src in enumerate(cfg["src"]):
                if src["free"]:
                    out.append([])
                    continue
                blk = np.array([((micsum + self.k + ch) % 7) - 3 for ch in range(1, src["n"] + 1)])
                out.append(blk.tolist())
                self.sig[src["name"]][:, i:i + b] = blk / 2 ** cfg["p"]
            if cfg["aux"]:
                blk = np.array([[((7 * self.k + 3 * ch + o) % 11) - 5 for o in range(1, b + 1)]
                                for ch in range(1, cfg["aux"] + 1)], dtype=float)
                self.sig["own"][..., i:i + b] = blk.reshape(*cfg["auxdim"], b)
            self.value = int((self.value * 5 + self.k * 3 + 1) % 97)
            self.vec[:] = self.value
            self.mat = np.full((2, 3), float(self.value))
            self.box["inner"][1][...] = self.value
            self.filt.ir[...] = self.value
            log["calls"].append({"num": int(num_samples), "fut": fut, "win": win, "out": out, "state": self.value,
                                 "ls": listing(simulator.folder_path, cfg)})
    return Probe()


def listing(folder, cfg):
    """The indices for which each signal diagnostic has a npz file now."""
    if folder is None or not any(d.get("keep") for d in cfg["sigdiag"]):
        return []
    names = [f.name for f in Path(folder).iterdir()]
    out = []
    for d in cfg["sigdiag"]:
        ks = []
        for f in names:
            if f.startswith(d["name"] + "_") and f.endswith(".npz") and f[len(d["name"]) + 1:-4].isdigit():
                ks.append(int(f[len(d["name"]) + 1:-4]))
        out.append(sorted(ks))
    return out


def run_case(case):
    """Run one case; returns (cfg for TLC, observations)."""
    import aspsim.diagnostics.core as dc
    import aspsim.diagnostics.diagnostics as dia
    cfg = case
    no_savefig()
    folder = None
    if cfg.get("export"):
        folder = Path(cfg["folder"])
        folder.mkdir(parents=True, exist_ok=True)
    setup = make_setup(cfg, folder)
    simulator = setup.create_simulator()
    info = simulator.sim_info
    log = {"calls": []}
    if cfg["b"] > 0:
        simulator.add_processor(make_probe(simulator, cfg, log))

    def expat(e):
        if isinstance(e, dict):
            return e["freq"]
        return {0: tuple(e), 1: list(e), 2: np.array(e, dtype=int)}[len(e) % 3]

    def twice(x):
        return 2 * x
    sigd = []
    for q, d in enumerate(cfg["sigdiag"]):
        kw = {}
        if d.get("channel_idx") is not None:
            kw["channel_idx"] = d["channel_idx"] if isinstance(d["channel_idx"], int) else tuple(d["channel_idx"])
        if not d.get("default_ivs"):
            ivs = [tuple(iv) for iv in d["ivs"]]
            form = d.get("form", 0)
            kw["save_at"] = dc.IntervalCounter(iter(ivs) if form == 1 else (np.array(ivs) if form == 2 else ivs))
        funcs = d.get("funcs", ["npz"])
        kw["export_func"] = funcs[0] if len(funcs) == 1 else list(funcs)
        if len(funcs) > 1 and q % 2:
            kw["export_kwargs"] = [{} for _ in funcs]
        if d.get("mul", 1) == 2:
            kw["preprocess"] = twice if len(funcs) == 1 else [[twice] for _ in funcs]
        if d["expspec"] is not None:
            kw["export_at"] = expat(d["expspec"])
        o = dia.RecordSignal(sig_name(cfg, d["sig"]), info, num_channels=len(d["chans"]),
                             keep_only_last_export=d.get("keep", False), **kw)
        simulator.diag.add_diagnostic(d["name"], o)
        sigd.append(o)
    std = []
    for q, d in enumerate(cfg["stdiag"]):
        o = dia.RecordState(d["attr"], tuple(d["dim"]) if len(d["dim"]) != 1 else d["dim"][0], info, expat(d["expspec"]),
                            d["freq"], export_func="npz")
        simulator.diag.add_diagnostic(d["name"], o)
        std.append(o)
    ind = []
    for q, d in enumerate(cfg["instdiag"]):
        kw = {} if d["spec"] is None else {"save_at": expat(d["spec"])}
        o = dia.RecordFilter(d["attr"], info, export_func="npz", **kw)
        simulator.diag[d["name"]] = o
        ind.append(o)
    simulator.run_simulation()

    obs = {"calls": [{k: c[k] for k in ("num", "fut", "win")} for c in log["calls"]],
           "states": [c["state"] for c in log["calls"]], "state0": cfg.get("state0", 0),
           "sigs": cfg["sigs"], "w": cfg["w"], "export": bool(cfg.get("export")),
           "ls": [c["ls"] for c in log["calls"]] if any(d.get("keep") for d in cfg["sigdiag"]) else [],
           "logger": logger_says(simulator.diag, [d["name"] for d in cfg["sigdiag"] + cfg["stdiag"] + cfg["instdiag"]], sigd + std + ind),
           "rec": [], "files": [], "others": [], "snaps": [], "stfiles": [], "instfiles": [], "extra": []}
    for d, o in zip(cfg["sigdiag"], sigd):
        x = np.atleast_2d(np.asarray(o.get_output(), dtype=float))
        has = ~np.all(np.isnan(x), axis=0)
        xs = scaled(x, sig_scale(cfg, d["sig"]))
        obs["rec"].append([[int(n), xs[:, n].tolist()] for n in np.nonzero(has)[0]])
    for d, o in zip(cfg["stdiag"], std):
        x = np.asarray(o.get_output(), dtype=float)
        x = x.reshape(-1, x.shape[-1])
        has = ~np.all(np.isnan(x), axis=0)
        ti = np.asarray(o.time_indices)
        obs["snaps"].append([{"ti": int(ti[n]), "v": same_value(x[:, n])} for n in np.nonzero(has)[0]])
    out = simulator.folder_path
    names = {d["name"]: [] for d in cfg["sigdiag"] + cfg["stdiag"] + cfg["instdiag"]}
    others = {d["name"]: [] for d in cfg["sigdiag"]}
    if out is not None:
        for f in sorted(Path(out).iterdir()):
            if f.name.startswith(("array_pos.", "metadata_")) or f.name == "config.yaml":
                continue
            stem, _, k = f.stem.rpartition("_")
            if k.isdigit() and str(int(k)) == k:
                if stem in names and f.suffix == ".npz":
                    with np.load(f) as z:
                        if list(z.keys()) == [stem]:
                            names[stem].append((int(k), np.asarray(z[stem], dtype=float)))
                            continue
                elif stem in others and f.suffix == ".json":
                    val = json.loads(f.read_text())
                    if list(val.keys()) == [stem]:
                        others[stem].append(["text", int(k), val[stem]])
                        continue
                elif stem in others and f.suffix == ".pdf":
                    others[stem].append(["plot", int(k), 0])
                    continue
                elif f.suffix == ".wav":
                    hit = [n for n in others if stem == n + "_" + n]
                    if hit:
                        import soundfile as sf
                        x, sr = sf.read(str(f), always_2d=True)
                        others[hit[0]].append(["wav", int(k), [x.shape[0], x.shape[1], int(sr) == info.samplerate]])
                        continue
            obs["extra"].append(f.name)
    for d, rec in zip(cfg["sigdiag"], obs["rec"]):
        lst = []
        for fn, k, v in sorted(others[d["name"]], key=lambda z: (z[0], z[1])):
            if fn == "text":    # the mean of the values, as numerator and denominator
                n = max(1, len(d["chans"]) * sum(1 for x in rec if x[0] < k))
                lst.append({"fn": fn, "k": k, "num": int(scaled(v * n, sig_scale(cfg, d["sig"]))), "den": int(n), "ch": 0})
            elif fn == "wav":
                lst.append({"fn": fn, "k": k, "num": v[0], "den": 0, "ch": v[1] if v[2] else -1})
            else:
                lst.append({"fn": fn, "k": k, "num": 0, "den": 0, "ch": 0})
        obs["others"].append(lst)
    for d in cfg["sigdiag"]:
        obs["files"].append([{"k": k, "v": scaled(np.atleast_2d(v), sig_scale(cfg, d["sig"])).tolist()} for k, v in sorted(names[d["name"]], key=lambda z: z[0])])
    for d in cfg["stdiag"]:
        obs["stfiles"].append([{"k": k, "v": [same_value(c) for c in np.moveaxis(v, -1, 0)]} for k, v in sorted(names[d["name"]], key=lambda z: z[0])])
    for d in cfg["instdiag"]:
        obs["instfiles"].append([{"k": k, "v": same_value(v)} for k, v in sorted(names[d["name"]], key=lambda z: z[0])])
    # what is left in the diagnostic is the last state it was asked for
    obs["instlast"] = [same_value(o.get_output()) if d["idxs"] else 0 for d, o in zip(cfg["instdiag"], ind)]
    if folder is not None:
        shutil.rmtree(str(folder), ignore_errors=True)
    tcfg = tla_cfg(cfg)
    tcfg["given"] = True
    tcfg["out"] = [c["out"] for c in log["calls"]]
    return {"cfg": tcfg, "obs": obs}


def logger_says(log, names, objs):
    """Positions of the diagnostics in the order in which they are listed, in three ways; 0 for what is not there."""
    def at(o):
        return next((k + 1 for k, x in enumerate(objs) if x is o), 0)
    return [[at(log[n]) if n in log else 0 for n in names], [at(o) for o in log],
            [at(o) if n in names and names.index(n) + 1 == at(o) else 0 for n, o in log.items()], [at(log[n]) for n in ("no such name",) if n in log]]


def same_value(x):
    x = np.asarray(x, dtype=float).ravel()
    if x.size == 0 or not np.all(x == x[0]) or not np.isfinite(x[0]) or x[0] != int(x[0]):
        return BAD
    return int(x[0])


def tla_cfg(cfg):
    c = {k: cfg[k] for k in ("B", "C", "tot", "b", "aux")}
    c["s0"] = bool(cfg["s0"])
    c["src"] = [{"free": s["free"], "n": s["n"], "data": s["data"] if s["free"] else []} for s in cfg["src"]]
    c["mic"] = [{"n": m["n"]} for m in cfg["mic"]]
    c["rir"] = cfg["rir"]
    c["sigdiag"] = [{"sig": d["sig"], "chans": d["chans"], "ivs": d["ivs"], "exps": d["exps"],
                      "keep": bool(d.get("keep", False)), "mul": d.get("mul", 1), "funcs": d.get("funcs", ["npz"])}
                     for d in cfg["sigdiag"]]
    c["stdiag"] = [{"idxs": d["idxs"], "exps": d["exps"]} for d in cfg["stdiag"]]
    c["instdiag"] = [{"idxs": d["idxs"]} for d in cfg["instdiag"]]
    c["given"] = False
    c["out"] = []
    return c


# --- random cases -----------------------------------------------------------
WORDS = ["mic", "src", "loudspeaker", "error", "ref", "eva", "noise", "a b", "x_1", "z", "Q", "mic2", "src10", "α"]


def gen_case(rng, i, *, proc=True, contrib=None, s0=None, aux=None, big=False, exports=False, tot=None, ndiag=0, grid=None):
    ns, nm = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    b = int(rng.integers(1, 6)) if proc else 0
    if big and proc:
        b = int(rng.integers(1, 12))
    s0 = bool(rng.integers(0, 2)) if s0 is None else s0
    contrib = bool(rng.integers(0, 2)) if contrib is None else contrib
    if proc:
        B = 2 * b + int(rng.choice([0, 0, 1, 2, 3, 5, 9]))
        C = b + int(rng.choice([0, 0, 1, 2, 3, 4, 7, 11, 40]))
    else:
        B = int(rng.integers(2, 14))
        C = max(1, B // 4) + int(rng.choice([0, 1, 2, 3, 5, 8, 30]))
    tot = tot or int(rng.integers(1, 45 if not big else 90))
    p, q = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    maxb = b or max(1, B // 4)
    need = B + tot + maxb + 3
    tail = bool(rng.random() < 0.2)     # long responses, and sources that are silent most of the time
    names = list(rng.permutation(WORDS)[:ns + nm])
    src = []
    for s in range(ns):
        free = bool(rng.random() < 0.65) or (s == 0 and not proc)
        n = int(rng.integers(1, 4))
        data = rng.integers(-20, 21, size=(n, need))
        if tail or rng.random() < 0.1:
            data[:, np.convolve(rng.random(need) < 1.5 / (B + 6), np.ones(1 + int(rng.integers(0, 3))))[:need] == 0] = 0
        src.append({"free": free, "n": n, "name": str(names[s]), "data": data.tolist() if free else []})
    mic = [{"n": int(rng.integers(1, 4)), "name": str(names[ns + m])} for m in range(nm)]
    if grid:
        mic[0]["n"] = grid
    rir, ptype = [], []
    for s in range(ns):
        row, prow = [], []
        for m in range(nm):
            L = int(rng.choice([1, 2, 3, 5, 8, B + C + 2 if rng.random() < 0.3 else 4]))
            if tail:
                L = B + int(rng.integers(2, C + 12))
            pt = str(rng.choice(["modified", "modified", "modified", "modified", "none", "direct"]))
            a, c = src[s]["n"], mic[m]["n"]
            if pt == "direct" and a != c:
                pt = "modified"
            if pt == "none":
                h = np.zeros((a, c, 1), dtype=int)
            elif pt == "direct":
                h = (np.eye(a, c, dtype=int) * 2 ** q)[..., None]
            else:
                h = rng.integers(-6, 7, size=(a, c, L))
            row.append(h.tolist())
            prow.append(pt)
        rir.append(row)
        ptype.append(prow)
    auxn = int(rng.integers(0, 3)) if aux is None else aux
    auxdim = []
    if proc and auxn:
        auxdim = [auxn] if rng.random() < 0.6 else [1, auxn]
    else:
        auxn = 0
    order = [["s", k] for k in range(ns)] + [["m", k] for k in range(nm)]
    rng.shuffle(order)
    # the source and mic numbering of the trace follows the order in which they are added
    sidx = [k for kk, k in order if kk == "s"]
    midx = [k for kk, k in order if kk == "m"]
    src = [src[k] for k in sidx]
    mic = [mic[k] for k in midx]
    rir = [[rir[a][c] for c in midx] for a in sidx]
    ptype = [[ptype[a][c] for c in midx] for a in sidx]
    si = mi = 0
    order2 = []
    for kk, _ in order:
        if kk == "s":
            order2.append(["s", si]); si += 1
        else:
            order2.append(["m", mi]); mi += 1
    sigs = [["s", s + 1] for s in range(ns)] + [["m", m + 1] for m in range(nm)]
    if contrib:
        sigs += [["c", s + 1, m + 1] for s in range(ns) for m in range(nm)]
    if auxn:
        sigs.append(["a"])
    w = max(b, B - b + 1) if proc else 0
    w = min(w, B)
    case = {"export_frequency": int(rng.integers(1, tot + 1)), "id": i, "B": B, "C": C, "tot": tot, "b": b, "s0": s0, "contrib": contrib, "p": p, "q": q,
            "src": src, "mic": mic, "rir": rir, "ptype": ptype, "aux": auxn, "auxdim": auxdim, "auxlate": bool(rng.integers(0, 2)), "order": order2,
            "sigs": sigs, "w": w, "sigdiag": [], "stdiag": [], "instdiag": [], "state0": int(rng.integers(0, 50))}
    return case


def chans_of(case, sg):
    if sg[0] == "s":
        return case["src"][sg[1] - 1]["n"]
    if sg[0] == "m":
        return case["mic"][sg[1] - 1]["n"]
    if sg[0] == "c":
        return case["mic"][sg[2] - 1]["n"]
    return case["aux"]


def add_plain_records(case):
    """Record every signal completely (used when no processor can observe them)."""
    for q, sg in enumerate(case["sigs"]):
        n = chans_of(case, sg)
        case["sigdiag"].append({"name": f"rec{q}", "sig": sg, "chans": list(range(1, n + 1)), "ivs": [[0, case["tot"]]],
                                "default_ivs": True, "expspec": [], "exps": []})
    return case


def case_of_model(cfg, i):
    """The case that a configuration of the model stands for (see AspSimBuf_MC)."""
    src = [{"free": s["free"], "n": s["n"], "name": f"src{k}", "data": [list(x) + [0] * 40 for x in s["data"]]}
           for k, s in enumerate(cfg["src"])]
    mic = [{"n": m["n"], "name": f"mic{k}"} for k, m in enumerate(cfg["mic"])]
    sigs = [["s", k + 1] for k in range(len(src))] + [["m", k + 1] for k in range(len(mic))]
    return {"id": i, "B": cfg["B"], "C": cfg["C"], "tot": cfg["tot"], "b": cfg["b"], "s0": cfg["s0"], "contrib": False,
            "p": 0, "q": 0, "src": src, "mic": mic, "rir": cfg["rir"], "aux": cfg["aux"],
            "auxdim": [cfg["aux"]] if cfg["aux"] else [], "sigs": sigs, "w": cfg["b"], "state0": 0,
            "sigdiag": [{"name": f"d{k}", "sig": d["sig"], "chans": d["chans"], "ivs": d["ivs"], "expspec": d["exps"],
                         "exps": d["exps"]} for k, d in enumerate(cfg["sigdiag"])],
            "stdiag": [{"name": f"s{k}", "attr": "k", "dim": [1], "freq": d["idxs"][0] if d["idxs"] else cfg["tot"] + 1,
                        "idxs": d["idxs"], "expspec": [], "exps": []} for k, d in enumerate(cfg["stdiag"])],
            "instdiag": [], "export": True, "plot_output": "pdf"}


ATTRS = [("value", [1]), ("vec", [2]), ("box['inner'][1]", [1, 1, 2]), ("filt.ir", [1, 1, 2]), ("mat", [2, 3]),
         ("box['inner'][0].box['inner'][0].vec", [2])]
DNAMES = ["mu_0.5", "mu_0.25", "v1.0_b", "d", "d_1", "d_12", "d_1_1", "mic", "x 1", "e", "e_e", "7", "d_d", "ab", "abc"]


def gen_ivs(rng, tot):
    """Increasing intervals without overlap; some touch each other."""
    ivs, at = [], int(rng.integers(0, max(1, tot // 2)))
    while at < tot and len(ivs) < 6:
        hi = min(tot, at + int(rng.choice([1, 1, 2, 3, 5, 8, 13, 40])))
        ivs.append([at, hi])
        at = hi + int(rng.choice([0, 1, 1, 2, 4, 9]))
    return ivs or [[0, tot]]


def gen_exps(rng, tot, first=1):
    """An export specification and the indices it stands for."""
    r = rng.random()
    if r < 0.45:
        f = int(rng.integers(max(1, first), tot + 1)) if first <= tot else tot
        return {"freq": f}, list(range(f, tot + 1, f))
    pool = np.arange(first, tot + 1)
    if len(pool) == 0:
        return [tot], [tot]
    n = int(rng.integers(1, min(6, len(pool)) + 1))
    e = sorted(int(x) for x in rng.choice(pool, size=n, replace=False))
    return e, e


def gen_diags(rng, case, *, nsig=(1, 4), nstate=(0, 3), ninst=(0, 3), keep=False, multi=False, export=True):
    """Add recorders to a case."""
    tot = case["tot"]
    names = [str(x) for x in rng.permutation(DNAMES)]
    sigs = [sg for sg in case["sigs"] if sg[0] != "a" or len(case["auxdim"]) == 1]
    proc = case["b"] > 0
    for _ in range(int(rng.integers(nsig[0], nsig[1] + 1))):
        sg = sigs[int(rng.integers(0, len(sigs)))]
        n = chans_of(case, sg)
        cidx, chans = None, list(range(1, n + 1))
        if rng.random() < 0.4:
            k = int(rng.integers(1, n + 1))
            sel = [int(x) for x in rng.permutation(n)[:k]]
            chans = [x + 1 for x in sel]
            cidx = sel[0] if k == 1 and rng.random() < 0.5 else sel
        default = bool(rng.random() < 0.25)
        ivs = [[0, tot]] if default else gen_ivs(rng, tot)
        funcs = ["npz"]
        if multi and rng.random() < 0.6:
            funcs = [str(x) for x in rng.permutation(["npz", "text", "wav", "plot"])[:int(rng.integers(1, 4))]]
            if "wav" in funcs and any(n2.startswith(names[-1]) for n2 in names[:1]):
                funcs = ["npz"]
        exp, exps = gen_exps(rng, tot, first=ivs[0][0] + 1 if len(funcs) > 1 or funcs != ["npz"] else 1)
        if rng.random() < 0.1 and case.get("export_frequency"):
            f = case["export_frequency"]
            exp, exps = None, list(range(f, tot + 1, f))
            funcs = ["npz"]
        case["sigdiag"].append({"name": names.pop(), "sig": sg, "chans": chans, "channel_idx": cidx, "ivs": ivs,
                                "default_ivs": default, "form": int(rng.integers(0, 3)), "expspec": exp, "exps": exps,
                                "keep": bool(keep and rng.random() < 0.7),
                                "mul": int(rng.choice([1, 1, 2])), "funcs": funcs})
    for _ in range(int(rng.integers(nstate[0], nstate[1] + 1)) if proc else 0):
        attr, dim = ATTRS[int(rng.integers(0, len(ATTRS)))]
        f = int(rng.integers(1, tot + 1))
        if rng.random() < 0.5:
            f = min(tot, int(rng.integers(1, 8)))
        exp, exps = gen_exps(rng, tot)
        if len(dim) > 1:
            exp, exps = [], []      # only vectors over time can be exported
        case["stdiag"].append({"name": names.pop(), "attr": attr, "dim": dim, "freq": f, "idxs": list(range(f, tot + 1, f)),
                               "expspec": exp, "exps": exps})
    for _ in range(int(rng.integers(ninst[0], ninst[1] + 1)) if proc and export else 0):
        attr, _ = ATTRS[int(rng.integers(0, len(ATTRS)))]
        exp, exps = gen_exps(rng, tot)
        if rng.random() < 0.15 and case.get("export_frequency"):
            f = case["export_frequency"]
            exp, exps = None, list(range(f, tot + 1, f))
        case["instdiag"].append({"name": names.pop(), "attr": attr, "spec": exp, "idxs": exps})
    if export:
        case["export"] = True
        case["plot_output"] = "pdf"
    return case


def describe(case):
    return {k: case[k] for k in ("B", "C", "tot", "b", "s0", "contrib")} | {
        "src": [[s["name"], s["free"], s["n"]] for s in case["src"]], "mic": [[m["name"], m["n"]] for m in case["mic"]]}
