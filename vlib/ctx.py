"""What every check shares: seed, tier, scratch space, verdicts and evidence."""
import json
import os
import shutil
import sys
import tempfile
import time
from pathlib import Path

import numpy as np

from . import tlc

VERIF = Path(__file__).resolve().parent.parent


class CheckError(Exception):
    """The check itself could not give an answer."""


def from_code(e):
    """A description of an exception that passed through the code under test, None if it did not."""
    import traceback
    src = os.environ.get("ASPSIM_SRC", "/repo/src").rstrip("/") + "/"
    tb = traceback.extract_tb(e.__traceback__)
    if not any(f.filename.startswith(src) for f in tb):
        return None
    where = [f"{Path(f.filename).name}:{f.name}" for f in tb][-3:]
    return f"{type(e).__name__}: {str(e)[:200]} at {' < '.join(reversed(where))}"


class Ctx:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = np.random.default_rng([self.seed, int("".join(ch for ch in prop if ch.isdigit()) or 0)])
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif_{prop}_"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []   # (key, description, replay data)
        self.exhaustive = None
        self.models = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- TLC ---------------------------------------------------------------
    def model(self, module, cfg, expect_violation=None, **kw):
        """Model-check a specification on its own. It has to hold, unless expect_violation
        names the invariant that a deliberately wrong variant must break."""
        kw.setdefault("timeout", 850 if not self.thorough else 7200)
        r = tlc.run(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        if expect_violation:
            if r.violated != expect_violation:
                raise CheckError(f"{module}: the wrong variant is not rejected by {expect_violation}\n{r.text[-3000:]}")
        elif not r.ok:
            raise CheckError(f"{module}: the specification does not hold on its own\n{r.text[-6000:]}")
        self.models.append({"module": module, "distinct": r.distinct, "generated": r.generated,
                            "expected": expect_violation or "holds"})
        return r

    def judge(self, module, traces, cfg=None, var="TRACE_FILE", batch=None, **kw):
        """Let TLC judge recorded traces. Returns a list of fails per trace."""
        cfg = cfg or "INIT TInit\nNEXT TNext\n"
        kw.setdefault("timeout", 850 if not self.thorough else 7200)
        batch = batch or len(traces)
        verdict = {}

        def part_of(lo, hi):
            """Verdicts for traces[lo:hi]. A trace that no step of the specification can even be evaluated
            on (indices that should be there are not) is itself a violation."""
            f = self.scratch / f"{module}_{lo}_{hi}.json"
            f.write_text(json.dumps(traces[lo:hi]))
            r = tlc.run(module, cfg, env={var: str(f)}, **kw)
            f.unlink()
            self.states += r.distinct
            self.transitions += r.generated
            if r.ok:
                for o in r.out:
                    verdict[lo + o["tid"] - 1] = o
                return
            if not r.evaluation_error:
                raise CheckError(f"{module}: TLC could not judge the traces\n{r.text[-6000:]}")
            done = {lo + o["tid"] - 1: o for o in r.out}
            if hi - lo == 1:
                self.violate("no behaviour", f"the specification has no behaviour that looks like this run: {r.text[-700:]}",
                             {"trace": traces[lo]})
                verdict[lo] = {"tid": 1, "steps": 0, "fails": [], "unjudged": True}
                return
            self.unjudged = getattr(self, "unjudged", 0) + 1
            if self.unjudged > 24:      # enough is known: what was not judged is left out
                for i in range(lo, hi):
                    verdict[i] = done.get(i, {"tid": 1, "steps": 0, "fails": [], "unjudged": True})
                return
            mid = (lo + hi) // 2
            part_of(lo, mid)
            part_of(mid, hi)
        for lo in range(0, len(traces), max(batch, 1)):
            part_of(lo, min(lo + batch, len(traces)))
        if len(verdict) != len(traces):
            raise CheckError(f"{module}: {len(traces)} traces but {len(verdict)} verdicts")
        self.traces += len(traces)
        return [verdict[i] for i in range(len(traces))]

    # --- verdicts ------------------------------------------------------------
    def violate(self, key, text, replay):
        self.violations.append((key, text, replay))

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def known(self):
        keys = {}
        f = VERIF / "known_findings.txt"
        if f.exists():
            for line in f.read_text().splitlines():
                if line.startswith("finding: "):
                    parts = line[len("finding: "):].split(" ", 2)
                    d = dict(p.split("=", 1) for p in parts[:2])
                    if d.get("property") == self.prop:
                        keys[d["key"]] = parts[2] if len(parts) > 2 else ""
        return keys

    def finish(self):
        known = self.known()
        new = [v for v in self.violations if v[0] not in known]
        seen = sorted({v[0] for v in self.violations if v[0] in known})
        for k in seen:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {known[k]}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "models": self.models,
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=_enc))
        rc = 0
        if new:
            rdir = VERIF / "replays"
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{self.prop}.json"
            path.write_text(json.dumps([{"key": k, "what": t, "replay": r} for k, t, r in new[:20]],
                                       indent=1, default=_enc))
            shown = set()
            for k, t, r in new:
                if k not in shown and len(shown) < 8:
                    shown.add(k)
                    print(f"  {k}: {t}"[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        else:
            print(f"OK property={self.prop} tier={self.tier} states={self.states} "
                  f"traces={self.traces} wall={time.time() - self.t0:.1f}s")
        return rc

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def _enc(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    return str(o)


class Hang(Exception):
    """A call into the code under test did not come back."""


def limited(fn, *args, seconds=20, **kw):
    """fn(*args, **kw), interrupted by Hang if it takes too long."""
    import signal

    def stop(*_):
        raise Hang(f"no answer after {seconds} s")
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args, **kw)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
