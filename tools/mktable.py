"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catches.txt."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(f"{V}/tools/catches.txt"):
    if not l.startswith("#") and l.strip():
        f = l.split(None, 3)
        got[f[0]] = (f[1], f[2], f[3].strip() if len(f) > 3 else "")
rows = ["| change | needs | reported by |", "|--------|-------|-------------|"]
for n in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    p, s, r = got.get(n, (m["property"], "missed", ""))
    rows.append(f"| {n} | {m['needs']} | {p}{', ' + s + ' s' if s.isdigit() else ': ' + s}{'; ' + r if r else ''} |")
p = f"{V}/DESIGN.md"
s = open(p).read()
mark = "<!-- seeded -->"
s = s.split(mark)[0] + mark + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
