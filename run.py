# -*- coding: utf-8 -*-
"""run.py CXX [--replay FILE]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import engine  # noqa


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    try:
        from mc import load  # noqa
        mod = importlib.import_module("checks." + pid.lower())
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        print("ERROR: cannot load the check or the code under test")
        return 2
    return engine.run_check(pid, mod, replay)


if __name__ == "__main__":
    sys.exit(main())
