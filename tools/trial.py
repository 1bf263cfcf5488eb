"""Run the check of a property against quick trial changes:  trial.py SPECS.py [id ...]

SPECS.py defines TRIALS: a list of (id, property, [(file, old, new)]).  Each change is made in a scratch clone of /repo;
with --tests, the repository's tests are run on those changes the check did not catch."""
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")


def one(t):
    tid, prop, edits = t
    tree = f"/tmp/trial/{tid}"
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(tree, "gerrychain", f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{tid}: {f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run([os.path.join(VERIF, "check.sh"), prop], env=dict(os.environ, VP_REPO=tree), capture_output=True, text=True)
        if r.returncode == 1:
            line = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][0]
            return f"{tid} {prop}: caught: {line[:140]}"
        msg = f"{tid} {prop}: MISSED rc={r.returncode} {r.stdout[-200:]}"
        if "--tests" in sys.argv:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "tests"], cwd=tree,
                               env=ENV, capture_output=True, text=True)
            msg += f" tests rc={r.returncode}"
        return msg
    finally:
        shutil.rmtree(tree, ignore_errors=True)


ids = [a for a in sys.argv[2:] if not a.startswith("--")]
trials = [t for t in runpy.run_path(sys.argv[1])["TRIALS"] if not ids or t[0] in ids]
with ThreadPoolExecutor(2) as ex:
    for res in ex.map(one, trials):
        print(res, flush=True)
