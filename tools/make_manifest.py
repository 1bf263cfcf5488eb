"""Writes MANIFEST.json from properties.jsonl and the ASSUMPTIONS of the checks."""
import ast
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "C01": "model-based PBT: generated flip/read/unlink histories vs recomputation from scratch",
    "C02": "model-based PBT: histories vs plain dict model, aliasing and immutability checks",
    "C03": "model-based PBT: scripted chains vs step-by-step reference model",
    "C04": "differential PBT: constraints vs plain graph search over histories",
    "C05": "PBT over call sequences vs definitions in exact arithmetic",
    "C06": "differential PBT: cut finders vs removal of every tree edge",
    "C07": "PBT: structural oracle, enumerated spanning trees with statistical law test, exact matrix-tree count",
    "C08": "PBT: validity predicate on every bipartition, enumerated preferred cuts",
    "C09": "stateful PBT: validity of every ReCom step, injected bipartition failures",
    "C10": "PBT: validity predicate on every seed plan and chunking",
    "C11": "PBT: observed transition frequencies vs law computed by enumerating spanning trees",
    "C12": "PBT: moves and frequencies vs enumerated laws",
    "C13": "model-based PBT: histories vs exact (rational) recomputation from votes",
    "C14": "model-based PBT: histories vs definitions recomputed from the plan",
    "C15": "PBT: round trips and models of tables; differential frozen vs mutable graph",
    "C16": "PBT: generated tilings vs exact counts on a lattice, and independent projection",
    "C17": "PBT: histories vs counts on unit squares",
    "C18": "model-based PBT: optimizer vs reference optimizer fed the same script; acceptance rates statistically",
    "C19": "PBT vs formulas",
    "C20": "differential PBT: brute-force neighbours and counts",
    "C21": "metamorphic PBT: the same seeded run under changed circumstances, incl. fresh processes",
    "C22": "differential PBT vs PROJ, round trip",
    "C23": "PBT over run configurations: live plans counted at random moments of generated runs",
    "C24": "PBT: colours read back from the drawn figure vs the plan",
    "C25": "stateful PBT with injected faults: exceptions and interrupts at generated points, everything re-judged by the oracles of the other properties",
    "C26": "PBT: generated data with planted faults; the warnings issued vs the faults planted",
}
checks = []
for p in props:
    i = p["id"]
    src = open(os.path.join(here, "checks", i.lower() + ".py")).read()
    ass = next((ast.literal_eval(n.value) for n in ast.parse(src).body
                if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS"), [])
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing (Hypothesis): " + TECH[i],
        "level": "exploration",
        "level_note": "Holds on every generated case (counts, distribution and samples in the evidence); no absence proof. "
                      + ("Assumes: " + "; ".join(ass) + "." if ass else ""),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. The checks import gerrychain from /repo's working tree (nothing is compiled). "
              "known_findings.json lists the one open finding and the repaired defects. "
              "Replay a failure with ./check.sh replay FILE."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
