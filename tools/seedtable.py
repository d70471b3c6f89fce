"""Rewrites the table of planted bugs in DESIGN.md between its markers."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | breaks | needs |", "|----|--------|-------|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
