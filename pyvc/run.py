"""python -m pyvc.run C01 [--tier quick|thorough] [--replay FILE]"""

import os

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"

import os
import sys

sys.dont_write_bytecode = True
# /repo's working tree is the code under verification (PYVC_REPO: a scratch copy, for developing the checks only)
ROOT = os.environ.get("PYVC_REPO", "/repo")
if "/repo/src" in sys.path:
    sys.path.remove("/repo/src")
sys.path.insert(0, ROOT + "/src")

import argparse
import importlib
import json
import traceback
from pathlib import Path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from pyvc import runner

    C = runner.Check(a.pid, tier, seed)
    # quick: an answer within the 900 s a check has, whatever the changed code does
    C.clock = runner.Clock(*((780, 240, 420) if tier == "quick" else (6 * 3600, 1200, 7200)))
    if a.replay:
        C.only = json.loads(Path(a.replay).read_text())
        if "case" not in C.only:
            print("replay file names failed obligations only:", json.dumps(C.only, indent=1)[:4000])
            return 1
    if a.no_proof:
        C.prove = lambda *x, **k: None
    import warnings

    warnings.simplefilter("ignore")
    try:
        import halomod
    except Exception:
        traceback.print_exc()
        o = runner.Obl("halomod imports", "halomod")
        o.status, o.detail = "undischarged", traceback.format_exc()
        C.obls.append(o)
        return runner.finish(C)
    if not str(Path(halomod.__file__).resolve()).startswith(ROOT + "/"):
        print("not the code in /repo:", halomod.__file__)
        return 1
    mods = [p for p in sorted((runner.VERIF / "contracts").glob(a.pid.lower() + "_*.py"))]
    try:
        mod = importlib.import_module("contracts." + mods[0].stem)
        mod.check(C)
    except runner.OutOfTime:
        o = runner.Obl("the check completed within its time", None)
        o.status, o.detail = "undischarged", traceback.format_exc()
        C.obls.append(o)
        print("out of time:", traceback.format_exc()[-600:])
    except Exception:
        traceback.print_exc()
        o = runner.Obl("contract harness completed", None)
        o.status, o.detail = "undischarged", traceback.format_exc()
        C.obls.append(o)
    C.clock.stop()
    if a.replay:
        for name, i, msg, inputs in C.failures:
            print(f"reproduced {name}#{i}: {msg}\ninputs: {json.dumps(inputs, indent=1)}")
        if not C.failures:
            print("not reproduced")
        return 1 if C.failures else 0
    return runner.finish(C)


if __name__ == "__main__":
    sys.exit(main())
