"""Mutation campaign: mutate.py list|run OUT.jsonl [file-substring ...]

Generates syntactic mutants of /repo's package; each is put into a scratch clone and judged by the checks its file maps to
(VP_REPO); mutants that no check reports are then run against the repository's tests. Run it from a copy of /verif."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # file -> {function or "": checks, most telling first}
    "updaters/flows.py": {"": ["C01"]}, "updaters/cut_edges.py": {"": ["C01"]}, "updaters/tally.py": {"": ["C01", "C13"]},
    "updaters/compactness.py": {"": ["C01", "C17"]}, "updaters/county_splits.py": {"": ["C14"]},
    "updaters/locality_split_scores.py": {"": ["C14"]}, "updaters/election.py": {"": ["C13"]}, "updaters/spanning_trees.py": {"": ["C07"]},
    "partition/assignment.py": {"": ["C02", "C01"]}, "partition/partition.py": {"": ["C02", "C01", "C10"]}, "partition/subgraphs.py": {"": ["C02"]},
    "partition/geographic.py": {"": ["C01", "C17"]}, "chain.py": {"": ["C03"]}, "accept.py": {"": ["C12", "C03"]},
    "constraints/contiguity.py": {"": ["C04"]}, "constraints/bounds.py": {"": ["C05", "C04"]}, "constraints/validity.py": {"": ["C05", "C03"]},
    "constraints/compactness.py": {"": ["C17"]}, "constraints/__init__.py": {"": ["C05"]},
    "metrics/compactness.py": {"": ["C17"]}, "metrics/partisan.py": {"": ["C13"]},
    "proposals/proposals.py": {"": ["C12"]}, "proposals/spectral_proposals.py": {"": ["C12"]},
    "proposals/tree_proposals.py": {"": ["C09", "C11"]},
    "tree.py": {"": ["C08", "C06", "C10", "C07", "C11"], "find_balanced_edge_cuts_contraction": ["C06", "C08"], "find_balanced_edge_cuts_memoization": ["C06", "C08"],
                "recursive_tree_part": ["C10"], "recursive_seed_part": ["C10"], "recursive_seed_part_inner": ["C10"], "get_seed_chunks": ["C10"],
                "get_max_prime_factor_less_than": ["C10"], "random_spanning_tree": ["C07", "C08"], "uniform_spanning_tree": ["C07", "C11"],
                "_bipartition_tree_random_all": ["C11"], "bipartition_tree": ["C08", "C09"], "bipartition_tree_random": ["C08", "C11"],
                "epsilon_tree_bipartition": ["C08", "C09"], "_region_preferred_max_weight_choice": ["C08"]},
    "graph/graph.py": {"": ["C15", "C16"]}, "graph/adjacency.py": {"": ["C16"]}, "graph/geo.py": {"": ["C16", "C22"]}, "grid.py": {"": ["C17"]},
    "optimization/optimization.py": {"": ["C18"], **{f"{x}_beta_function": ["C19"] for x in ("jumpcycle", "linearcycle", "linear_jumpcycle", "logitcycle", "logit_jumpcycle")}}, "optimization/gingleator.py": {"": ["C19"]},
    "metagraph.py": {"": ["C20"]}, "meta/diversity.py": {"": ["C20"]}, "vendor/utm/conversion.py": {"": ["C22"]},
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult],
       ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr], ast.Pow: [ast.Mult]}


def mutants(src):
    """(line, function, description, new source)"""
    tree = ast.parse(src)
    out = []
    parents, owner = {}, {}

    def walk(node, fn):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
            f = fn
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + child.name
            owner[child] = f
            walk(child, f)

    walk(tree, "")
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip.update(ast.walk(a.annotation))
            if n.returns is not None:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(ast.walk(n))

    def emit(node, desc, change):
        """change(clone of node) edits in place, or returns a replacement"""
        memo = {}
        t2 = copy.deepcopy(tree, memo)
        n2 = memo[id(node)]
        rep = change(n2)
        if rep is not None:
            p2 = memo[id(parents[node])]
            for field, val in ast.iter_fields(p2):
                if val is n2:
                    setattr(p2, field, rep)
                elif isinstance(val, list):
                    for i, x in enumerate(val):
                        if x is n2:
                            val[i] = rep
        ast.fix_missing_locations(t2)
        try:
            s = ast.unparse(t2)
            compile(s, "x", "exec")
        except Exception:
            return
        out.append((node.lineno, owner.get(node, ""), desc, s))

    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    emit(n, f"{type(op).__name__}->{new.__name__}", lambda m, i=i, new=new: m.ops.__setitem__(i, new()))
                if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    new = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(op)]
                    emit(n, f"{type(op).__name__}->{new.__name__}", lambda m, i=i, new=new: m.ops.__setitem__(i, new()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                emit(n, f"{type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            emit(n, "and<->or", lambda m, new=new: setattr(m, "op", new()))
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    def drop(m, i=i):
                        vals = [v for j, v in enumerate(m.values) if j != i]
                        if len(vals) == 1:
                            return vals[0]
                        m.values = vals
                    emit(n, f"drop operand {i}", drop)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(n, "drop unary", lambda m: m.operand)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                emit(n, f"{n.value}->{not n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, (int, float)):
                emit(n, f"{n.value}->{n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
                if n.value not in (0, 1):
                    emit(n, f"{n.value}->{n.value - 1}", lambda m: setattr(m, "value", m.value - 1))
                if n.value == 1:
                    emit(n, "1->0", lambda m: setattr(m, "value", 0))
        elif isinstance(n, ast.If):
            emit(n, "if True", lambda m: setattr(m, "test", ast.Constant(True)))
            emit(n, "if False", lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            emit(n, "ifexp body", lambda m: m.body)
            emit(n, "ifexp else", lambda m: m.orelse)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            emit(n, "delete statement", lambda m: ast.copy_location(ast.Pass(), m))
        elif isinstance(n, ast.Break):
            emit(n, "break->pass", lambda m: ast.Pass())
        elif isinstance(n, ast.Continue):
            emit(n, "continue->pass", lambda m: ast.Pass())
        elif isinstance(n, ast.Raise):
            emit(n, "raise->pass", lambda m: ast.Pass())
        elif isinstance(n, ast.comprehension):
            pass
        if isinstance(n, ast.AugAssign):
            emit(n, "augassign->assign", lambda m: ast.Assign(targets=[m.target], value=m.value, lineno=m.lineno))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for gi, g in enumerate(n.generators):
                for ii in range(len(g.ifs)):
                    emit(n, f"drop filter {ii}", lambda m, gi=gi, ii=ii: m.generators[gi].ifs.pop(ii) and None)
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name in ("copy", "deepcopy") and isinstance(f, ast.Attribute) and not n.args:
                emit(n, "drop .copy()", lambda m: m.func.value)
            if name in ("sorted", "set", "list", "frozenset", "tuple", "dict", "abs", "float", "int", "deepcopy") and len(n.args) == 1:
                emit(n, f"drop {name}()", lambda m: m.args[0])
            if name in ("min", "max", "any", "all"):
                new = {"min": "max", "max": "min", "any": "all", "all": "any"}[name]
                def ren(m, new=new):
                    if isinstance(m.func, ast.Name):
                        m.func.id = new
                    else:
                        m.func.attr = new
                emit(n, f"{name}->{new}", ren)
            if len(n.args) == 2 and name not in ("isinstance", "getattr", "range", "zip"):
                emit(n, "swap args", lambda m: m.args.reverse())
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    emit(n, f"drop keyword {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k) and None)
        if isinstance(n, ast.Return) and n.value is not None:
            pass
    return out


def checks_for(f, fn):
    m = MAP[f]
    for part in fn.split("."):
        if part in m:
            return m[part]
    return m[""]


def main():
    mode, out = sys.argv[1], sys.argv[2]
    want = sys.argv[3:]
    jobs = []
    for f in MAP:
        if want and not any(w in f for w in want):
            continue
        src = open(f"/repo/gerrychain/{f}").read()
        for i, (line, fn, desc, s) in enumerate(mutants(src)):
            jobs.append((f, i, line, fn, desc, s))
    print(len(jobs), "mutants", file=sys.stderr)
    if mode == "list":
        for j in jobs:
            print(j[:5])
        return
    random.Random(5).shuffle(jobs)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    lock = threading.Lock()
    slots = list(range(int(os.environ.get("MUT_SLOTS", "2"))))
    per = str(max(1, 8 // len(slots)))

    def work(j):
        f, i, line, fn, desc, s = j
        key = (f, i)
        if key in done:
            return
        with lock:
            slot = slots.pop()
        tree = f"/tmp/mut/t{slot}"
        try:
            if not os.path.isdir(tree):
                subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
            subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."], check=True)
            open(f"{tree}/gerrychain/{f}", "w").write(s)
            rec = {"key": key, "line": line, "fn": fn, "desc": desc, "caught": None}
            env = dict(os.environ, VP_REPO=tree, VP_CPUS=per, VP_NOSHRINK="1")
            for c in checks_for(f, fn):
                try:
                    r = subprocess.run(["bash", f"{HERE}/check.sh", c], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    rec["caught"] = f"{c} timeout"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    rec["caught"] = c
                    break
                if r.returncode:
                    rec.setdefault("odd", []).append(f"{c} rc={r.returncode}: {(r.stdout + r.stderr)[-300:]}")
            if not rec["caught"]:
                t = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "tests"]
                                   + (["-n", per] if os.environ.get("MUT_XDIST") else ["-p", "no:xdist"]),
                                   cwd=tree, env=dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"),
                                   capture_output=True, text=True)
                rec["tests"] = t.returncode
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")
        finally:
            with lock:
                slots.append(slot)

    with ThreadPoolExecutor(len(slots)) as ex:
        for r in ex.map(work, jobs):
            pass


if __name__ == "__main__":
    main()
