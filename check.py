#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only REGEX] [-v] [--replay FILE]"""
import os
import sys

for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["NUMBA_DISABLE_JIT"] = "1"   # jitted kernels run as the Python source they are compiled from
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)

if __name__ == "__main__":
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in args
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    from engine import runner
    if "--replay" in args:
        sys.exit(runner.replay(prop, args[args.index("--replay") + 1]))
    sys.exit(runner.main(prop, tier, only, verbose))
