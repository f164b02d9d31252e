"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results file tools/caught.txt (id check rc)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + "/tools/caught.txt"):
    i, c, rc = l.split()[:3]
    res.setdefault(i, {})[c] = rc
rows = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(c for c in sorted(r) if r[c] == "1") or ("missed" if r else "not run")))
s = open(V + "/DESIGN.md").read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- table -->[\s\S]*<!-- end -->", lambda m: t, s)
open(V + "/DESIGN.md", "w").write(s)
