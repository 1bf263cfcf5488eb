"""rewrites the table of subs in DESIGN.md (between the markers) from checks/*.py"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp.harness  # noqa: F401  (sets up sys.path for /repo and .deps)
rows = ["| property | sub | quick cases | thorough cases | what |", "|---|---|---|---|---|"]
for i in range(1, 100):
    if not os.path.exists(f"checks/c{i:02}.py"):
        break
    m = importlib.import_module(f"checks.c{i:02}")
    q = getattr(m, "QUICK", 1)
    for s in m.SUBS:
        rows.append(f"| C{i:02} | {s.name} | {int(s.quick * q)} | {int(s.thorough)} | {s.rule} |")
t = open("DESIGN.md").read()
a, rest = t.split("<!-- subs -->\n", 1)
_, b = rest.split("<!-- /subs -->", 1)
open("DESIGN.md", "w").write(a + "<!-- subs -->\n" + "\n".join(rows) + "\n<!-- /subs -->" + b)
