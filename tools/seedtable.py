"""rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/catches.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/catches.json"))
rows = ["All by the quick check of the bug's own property (exit 1, own VIOLATION line), replayed and minimised.", "", "| bug | property | what it breaks, what it needs | caught as |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    cut = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s *Needs:* %s | %s |" % (i, m["property"], cut(m["what_it_breaks"]), cut(m["needs"]), c.get(i, "**not caught**")))
d = open(V + "/DESIGN.md").read()
a = d.index("## 6. "); a = d.index("\n", a) + 1; b = d.index("## 7. ")
open(V + "/DESIGN.md", "w").write(d[:a] + "\n" + "\n".join(rows) + "\n\n" + d[b:])
