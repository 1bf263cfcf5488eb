import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import harness
from .harness import REPO, VERIF, derive, digest

sys.path.insert(0, REPO)


def load(prop):
    import gerrychain

    if not os.path.realpath(gerrychain.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"gerrychain was imported from {gerrychain.__file__}, not from {REPO}")
    return importlib.import_module(f"checks.{prop.lower()}")


def _work(job):
    prop, name, seed, n, deadline, sigs, skip = job
    mod = sys.modules[f"checks.{prop.lower()}"]
    sub = next(s for s in mod.SUBS if s.name == name)
    return harness.run_shard(sub, prop, seed, n, deadline, sigs, skip)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    try:
        harness.run_case(sub, rec["case"])
    except harness.Skip as e:
        print("outside the domain:", e)
        return 2
    except harness._CaseTimeout:
        print(f"VIOLATION property={rec['property']} replay={path}\nno result within {sub.timeout} s")
        return 1
    except Exception as e:
        print(f"VIOLATION property={rec['property']} replay={path}\n{harness.explain(e)}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    prop = argv[0]
    only = set(argv[1:])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = load(prop)
    subs = [s for s in mod.SUBS if not only or s.name in only]
    findings = [k for k in harness.known_findings() if k["property"] == prop]
    sigs = {k["sig"] for k in findings if k["status"] == "known" and k.get("sig")}

    # Known findings: replay the recorded history; say so while it still fails.
    for k in findings:
        if k["status"] != "known":
            continue
        sub = next(s for s in mod.SUBS if s.name == k["sub"])
        try:
            harness.run_case(sub, k["case"])
        except harness.Skip:
            pass
        except Exception as e:
            if getattr(e, "sig", None) == k["sig"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            else:
                return report(prop, k["sub"], {"case": k["case"], "error": str(e),
                                               "traceback": harness.explain(e)}, tier, seed, t0)

    budget = float(os.environ.get("VP_BUDGET", "240" if tier == "quick" else "3600"))
    deadline = t0 + budget
    ncpu = int(os.environ.get("VP_CPUS", max(1, min(8, os.cpu_count() or 1))))
    scale = float(os.environ.get("VP_SCALE", "1"))
    jobs = []
    for s in subs:
        total = max(1, int((s.quick * getattr(mod, "QUICK", 1) if tier == "quick" else s.thorough) * scale))
        shards = min(ncpu if tier == "quick" else 4 * ncpu, total)
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            jobs.append((i, (prop, s.name, derive(seed, prop, s.name, i), n, deadline, sigs, i > 0)))
    jobs = [j for _, j in sorted(jobs, key=lambda t: t[0])]

    results, fail = [], None
    ctx = mp.get_context("fork")
    pool = ctx.Pool(ncpu, maxtasksperchild=None)
    try:
        for r in pool.imap_unordered(_work, jobs):
            results.append(r)
            if r["harness"]:
                print(r["harness"], file=sys.stderr)
                print("the check itself failed", file=sys.stderr)
                return 2
            if r["fail"] and fail is None:
                fail = r
                break
    finally:
        pool.terminate()
        pool.join()

    nviol = 1 if fail else 0
    write_evidence(prop, mod, subs, results, tier, seed, time.time() - t0, nviol)
    if fail:
        return report(prop, fail["sub"], fail["fail"], tier, seed, t0)
    ev = sum(r["evaluations"] for r in results)
    print(f"OK property={prop} evaluations={ev} seconds={time.time() - t0:.1f}")
    return 0


def report(prop, sub, fail, tier, seed, t0):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{digest(fail['case'])[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": fail["case"], "error": fail["error"],
                   "traceback": fail["traceback"], "seed": seed, "tier": tier}, f, indent=1, default=repr)
    print(fail["error"])
    print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return 1


def write_evidence(prop, mod, subs, results, tier, seed, wall, nviol):
    per, tags, nt, samples = {}, {}, set(), []
    for r in results:
        p = per.setdefault(r["sub"], {"evaluations": 0, "out_of_domain": 0, "distinct_nontrivial": set(),
                                      "known_finding_hits": 0, "cut_short": False})
        p["evaluations"] += r["evaluations"]
        p["out_of_domain"] += r["skipped"]
        p["distinct_nontrivial"].update(r["nt"])
        p["known_finding_hits"] += sum(r["known"].values())
        p["cut_short"] |= r["cut_short"]
        for k, v in r["tags"].items():
            tags[f"{r['sub']}:{k}"] = tags.get(f"{r['sub']}:{k}", 0) + v
        nt.update(f"{r['sub']}:{x}" for x in r["nt"])
    seen = {}
    for r in results:
        for c in r["samples"]:
            if seen.get(r["sub"], 0) < 3 and len(harness.canon(c)) < 4000:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                samples.append({"sub": r["sub"], "case": c})
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
    rule = getattr(mod, "RULE", "") + " | " + " | ".join(f"{s.name}: {s.rule}" for s in subs if s.rule)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nt),
            "rule": rule,
            "samples": samples,
            "per_sub": per,
            "tags": dict(sorted(tags.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
