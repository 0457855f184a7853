#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] ..."""
import os
import sys

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
if "PYTHONHASHSEED" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    import importlib
    from sim import runner
    prop = importlib.import_module("props." + sys.argv[1].lower())
    sys.exit(runner.main(prop, sys.argv[2:]))
