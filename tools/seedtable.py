"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(f"{d}/seeded/{s}/meta.json"))
    rows.append(f"| `{s}` | {m['property']} | {m['needs']} |")
p = d + "/DESIGN.md"; t = open(p).read().split("\n")
i = t.index("| planted bug | caught by | needs |") + 2
j = i
while t[j].startswith("|"): j += 1
open(p, "w").write("\n".join(t[:i] + rows + t[j:]))
