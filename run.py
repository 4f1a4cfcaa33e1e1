#!/opt/venv/bin/python
"""Usage: run.py C05 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import pathlib
import sys

if os.environ.get("HCMON_CHILD") != "1":
    # Fresh interpreter with a fixed environment: no bytecode written next to /repo's sources, single threaded BLAS.
    env = dict(os.environ, HCMON_CHILD="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONOPTIMIZE", None)
    py = "/opt/venv/bin/python"
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env)
os.environ.pop("HCMON_CHILD")

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from vlib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    try:
        code = core.run_property(a.prop.upper(), a.tier, a.seed, a.budget, a.replay)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
