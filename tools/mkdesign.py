"""Rewrites the catch table of DESIGN.md from seeded/ and work/caught.json (what the last sweep of the seeds found)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds:begin -->", "<!-- seeds:end -->"
rows = ["| planted change | what it needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append(f"| {i} | {m['needs']} | {m['property']} |")
i, j = t.index(a), t.index(b)
open(p, "w").write(t[:i] + a + "\n" + "\n".join(rows) + "\n" + t[j:])
