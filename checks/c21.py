"""C21: the same seeded run, made again in many circumstances, gives the same plans."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vp import gen, hist, repro
from vp.harness import REPO, VERIF, HarnessError, Skip, Sub, check

QUICK = 1.5  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a run is non-trivial when it yields at least two different plans (or one seed plan of at least three parts)"
ASSUMPTIONS = ["fresh processes use the same Python and libraries; the hash seed is varied only for labels whose hashes are not randomised"]

KINDS = ["seed", "rsp", "random_init", "recom", "recom", "region", "region", "ReCom", "rev", "rev", "spectral", "flip", "flip", "flip", "slow", "bi",
         "chunk", "every", "any", "bursts", "tilted", "anneal", "gingles"]


@st.composite
def one(draw):
    kind = draw(st.sampled_from(KINDS))
    if draw(st.integers(0, 2)):
        a, b = draw(st.integers(2, 6)), draw(st.integers(3, 7))
        n = a * b
        spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
                "label": draw(st.sampled_from(["int", "tuple", "str", "scram", "off"])), "order": draw(st.integers(0, 3))}
    else:
        spec = draw(gen.graphs(4, 16))
        n = spec["n"]
    plan = draw(hist.plans(spec, 2, 5, contiguous=True))
    return {"g": spec, "plan": plan, "k": max(plan) + 1, "plabel": draw(st.sampled_from(gen.SORTABLE)),
            "pop": draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 4), min_size=n, max_size=n))),
            "county": [["a", "b", "c", "d"][(i * 3) // n] for i in range(n)],
            "eps": draw(st.sampled_from([0.2, 0.5, 0.75])), "kind": kind, "sur": draw(st.sampled_from([0.3, 1, 2])),
            "method": draw(st.sampled_from(["first", "random"])), "cut": draw(st.sampled_from(["mem", "con"])),
            "tree": draw(st.sampled_from(["random", "uniform"])), "cons": draw(st.sampled_from(["none", "contig", "single"])),
            "acc": draw(st.sampled_from(["always", "always", "cut"])), "repeats": draw(st.integers(1, 3)), "M": draw(st.integers(1, 30)),
            "wt": draw(st.sampled_from([None, "random"])), "steps": draw(st.integers(2, 30)), "seed": draw(gen.seeds)}


def same(a, b, what, c):
    a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))

    def msg():
        i = next((j for j, (x, y) in enumerate(zip(a[1], b[1])) if x != y), min(len(a[1]), len(b[1])))
        return (f"{c['kind']} run with seed {c['seed']} is not reproduced {what}: outcomes {a[0]} and {b[0]}, {len(a[1])} and {len(b[1])} plans, "
                f"first difference at plan {i}: {a[1][i:i + 1]} and {b[1][i:i + 1]}; next draws {a[2]} and {b[2]}")

    check(a == b, msg)


def nontrivial(c, r):
    return len({tuple(p) for p in r[1]}) > 1 or (c["kind"] in ("seed", "rsp", "random_init") and bool(r[1]) and c["k"] > 2)


def run_here(c):
    with hist.fresh_defaults():
        first = repro.run(c)
    with hist.fresh_defaults():
        same(first, repro.run(c), "in the same process", c)
        same(first, repro.run(c, before=3 + c["seed"] % 50), "after other partitions and runs", c)
        same(first, repro.run(c, reads=1), "when values are read along the way", c)
        same(first, repro.run(c, reads=2, before=1), "when values are read along the way", c)
    return {"nt": nontrivial(c, first), "tags": [c["kind"], f"{c['kind']}:{first[0]}"]}


def fresh(jobs, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.pathsep.join([REPO, VERIF, os.path.join(VERIF, ".deps")]))
    r = subprocess.run([sys.executable, "-m", "vp.repro"], input=json.dumps(jobs), capture_output=True, text=True, env=env, cwd=VERIF)
    if r.returncode:
        raise HarnessError(f"the fresh process failed: {r.stderr[-2000:]}")
    return json.loads(r.stdout)


def hash_free(c):
    return c["g"]["label"] != "str" and c["plabel"] not in ("str", "empty", "tuple", "mixed")


def run_fresh(c):
    cs = c["runs"]
    firsts = []
    for x in cs:
        with hist.fresh_defaults():
            firsts.append(repro.run(x))
    hs = os.environ.get("PYTHONHASHSEED", "0")
    for x, f, r in zip(cs, firsts, fresh([(x, i % 3, i % 2) for i, x in enumerate(cs)], hs)):
        same(f, r, "in a fresh process", x)
    other = [(x, f) for x, f in zip(cs, firsts) if hash_free(x)]
    if other:
        for (x, f), r in zip(other, fresh([(x, 0, None) for x, f in other], c["hash"])):
            same(f, r, "in a fresh process with another hash seed (no label is a string)", x)
    return {"nt": any(nontrivial(x, f) for x, f in zip(cs, firsts)), "tags": sorted({x["kind"] for x in cs}) + ["hash seeds"] * bool(other)}


@st.composite
def long_one(draw):
    c = draw(one())
    a, b = draw(st.integers(6, 11)), draw(st.integers(6, 11))
    n = a * b
    c["g"] = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)], "label": c["g"]["label"], "order": c["g"]["order"]}
    k = draw(st.integers(2, 9))
    plan = [(i % b) * k // b for i in range(n)]
    c.update(plan=plan, k=max(plan) + 1, pop=[1] * n, county=[["a", "b", "c", "d"][(i * 3) // n] for i in range(n)], steps=draw(st.integers(20, 80)))
    return c


SUBS = [
    Sub("here", one, run_here, 1200, 20000, 90),
    Sub("long", long_one, run_here, 48, 1200, 200),
    Sub("fresh", lambda: st.fixed_dictionaries({"runs": st.lists(one(), min_size=4, max_size=10), "hash": st.integers(1, 10**6)}), run_fresh, 32, 600, 120),
]
