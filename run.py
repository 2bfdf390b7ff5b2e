#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os
import sys
import subprocess
import tempfile
import shutil
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
SETTINGS = {"MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore"}


def main():
    if os.environ.get("VERIF_INNER") != "1":
        mpl = tempfile.mkdtemp(prefix="verif_mpl_")
        env = dict(os.environ, **SETTINGS, VERIF_INNER="1", MPLCONFIGDIR=mpl)
        try:
            rc = subprocess.call([PY if os.path.exists(PY) else sys.executable, str(HERE / "run.py")] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(mpl, ignore_errors=True)
        sys.exit(rc)
    sys.path.insert(0, str(HERE))
    sys.path.insert(0, os.environ.get("ASPSIM_SRC", "/repo/src"))
    prop = sys.argv[1]
    from vlib.ctx import Ctx, CheckError, from_code
    import importlib
    ctx = Ctx(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    os.chdir(ctx.scratch)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        try:
            mod.run(ctx)
        except CheckError:
            raise
        except Exception as e:      # noqa: BLE001  raised by the code under test: that is an observation
            what = from_code(e)
            if what is None:
                if isinstance(e, (ImportError, OSError, MemoryError, subprocess.SubprocessError)):
                    raise
                # the answers had a form that the check cannot even read
                what = f"an answer of an unreadable form ({type(e).__name__}: {str(e)[:200]})"
            traceback.print_exc()
            ctx.violate("raised", f"the code raised {what}", {"raised": what})
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check gave no answer")
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
