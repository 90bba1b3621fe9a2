#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--only TEST] [--scale X]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.pop("PYTHONPATH", None)
    py = "/opt/venv/bin/python"
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])

import argparse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
p = argparse.ArgumentParser()
p.add_argument("property", nargs="?")
p.add_argument("--selftest", action="store_true", help="import everything, run nothing")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
p.add_argument("--replay")
p.add_argument("--only")
p.add_argument("--scale", type=float, default=1.0)
p.add_argument("--workers", type=int)
a = p.parse_args()

from vf import runner

if a.selftest:
    import glob

    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", "C*.py"))):
        try:
            runner.load(os.path.basename(f)[:-3])
        except Exception as e:
            if not runner.in_repo(e):
                raise
            print("the code under test cannot be imported:", repr(e))  # the checks report it
    print("ok")
    sys.exit(0)
if a.replay:
    sys.exit(runner.replay(a.property, a.replay))
try:
    sys.exit(runner.main(a.property, a.tier, a.seed, a.only, a.scale, a.workers))
except Exception:
    import traceback

    traceback.print_exc()
    sys.exit(2)
