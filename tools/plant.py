"""Confirm a planted bug in a scratch copy and keep it under seeded/:  plant.py SPECS.py [id ...]

SPECS.py defines BUGS: a list of dicts with id, property, edits [(file, old, new)], demo (Python source), needs, breaks.
A bug is kept when it applies, the repository's tests pass with it, and the demo exits 0 without and non-zero with it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTHONDONTWRITEBYTECODE="1")
DEMO = """#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, non-zero when it does not
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def demo(d, tree):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, capture_output=True, text=True, timeout=290)


def one(b):
    d = os.path.join(VERIF, "seeded", b["id"])
    tree = f"/tmp/plant/{b['id']}"
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    out = f"/tmp/plant/{b['id']}.d"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: {f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tree, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = demo(out, "/repo")
        if r0.returncode:
            return f"{b['id']}: the demo fails on the unchanged tree: {(r0.stdout + r0.stderr)[-800:]}"
        r1 = demo(out, tree)
        if r1.returncode == 0:
            return f"{b['id']}: the demo passes with the patch"
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--no-cov",
                            "--timeout=300", "tests"], cwd=tree, env=ENV, capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1]
        if r.returncode:
            fails = [l for l in r.stdout.splitlines() if l.startswith("FAILED")]
            return f"{b['id']}: tests fail: {last} {fails[:2]}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(out, d)
        return f"{b['id']}: kept ({last}; demo says: {(r1.stdout + r1.stderr).strip().splitlines()[-1][:150]})"
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    os.makedirs("/tmp/plant", exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for msg in ex.map(one, bugs):
            print(msg, flush=True)
