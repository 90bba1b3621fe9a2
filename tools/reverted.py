#!/opt/venv/bin/python
"""reverted.py [ids or commits...]: undo each repair recorded in known_findings.json, in a scratch copy, and run its property's check.

Tooling only. Prints what is not noticed.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(e):
    c = re.search(r"property=\S+ (\w+) ", e["fixed"])[1]
    d = tempfile.mkdtemp(prefix="rev.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d + "/r"], check=True)
        r = subprocess.run(["git", "-C", d + "/r", "revert", "-n", c], capture_output=True, text=True)
        if r.returncode:
            return e, c, "cannot be reverted"
        env = dict(os.environ, VF_REPO=d + "/r", VF_OUT=d, VF_NOSHRINK="1", VF_WORKERS="3")
        r = subprocess.run([HERE + "/check.py", e["property"]], env=env, capture_output=True, text=True)
        return e, c, {0: "NOT NOTICED", 1: "noticed"}.get(r.returncode, f"status {r.returncode}")
    finally:
        shutil.rmtree(d)


entries = [e for e in json.load(open(HERE + "/known_findings.json")) if "fixed" in e]
if sys.argv[1:]:
    entries = [e for e in entries if e["property"] in sys.argv[1:] or any(a in e["fixed"] for a in sys.argv[1:])]
with ThreadPoolExecutor(3) as ex:
    for e, c, what in ex.map(one, entries):
        if what != "noticed":
            print(what, e["fixed"], flush=True)
print(len(entries), "repairs undone")
