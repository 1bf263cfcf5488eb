#!/bin/bash
# rewrites the table at the end of DESIGN.md from the output of catch.sh (file argument)
cd "$(dirname "$0")/.."
python3 - "$1" <<'P'
import json, sys, os
res = {}
for l in open(sys.argv[1]):
    f = l.split()
    if len(f) > 3 and os.path.isdir("seeded/" + f[0]):
        res[f[0]] = f[2]
s = open("DESIGN.md").read()
head = s.split("| planted bug |")[0]
rows = ["| planted bug | check | caught | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {'yes' if res.get(d) == 'rc=1' else 'NO' if d in res else '?'} | {m['needs']} |")
open("DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
P
