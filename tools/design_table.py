"""Rewrite the planted-bugs section of DESIGN.md from tools/mut/results.json and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f"{V}/tools/mut/results.json"))
ids = sorted(os.listdir(f"{V}/seeded"))
by = {}
for i in ids:
    by.setdefault(json.load(open(f"{V}/seeded/{i}/meta.json"))["property"], []).append(i)
out = ["## Planted bugs", "", f"{len(ids)} confirmed changes are kept in `seeded/` (sources in `tools/mut/`, planted, confirmed and judged by",
       "`tools/mutants.py`). Per property: the changes its check catches; in brackets those caught by other checks only or missed.", ""]
for p in sorted(by):
    c = [i[4:] for i in by[p] if p in res.get(i, [])]
    o = [f"{i[4:]} ({', '.join(res[i]) if res.get(i) else 'missed' if i in res else 'not run'})" for i in by[p] if p not in res.get(i, [])]
    out.append(f"* **{p}**: {', '.join(c)}" + (f" [{', '.join(o)}]" if o else ""))
text = "\n".join(out) + "\n"
s = open(f"{V}/DESIGN.md").read()
k = s.find("## Planted bugs")
s = (s if k < 0 else s[:k]).rstrip() + "\n\n" + text
open(f"{V}/DESIGN.md", "w").write(s)
