"""Brings the table of planted bugs in DESIGN.md up to date."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = []
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read().split("\n")
a = t.index("| planted bug | check | needs |") + 2
b = a
while b < len(t) and t[b].startswith("| "):
    b += 1
open(p, "w").write("\n".join(t[:a] + rows + t[b:]))
