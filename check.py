#!/opt/venv/bin/python
"""Usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner  # noqa: E402

if __name__ == "__main__":
    try:
        runner.main()
    except Exception:
        import traceback

        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
