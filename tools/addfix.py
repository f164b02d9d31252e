"""addfix.py PROPERTY[,PROPERTY] "what failed": records /repo's last commit as the repair of a defect."""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f))
c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", os.environ.get("REV", "HEAD")], text=True).strip()
for p in sys.argv[1].split(","):
    k.append({"property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, sys.argv[2])})
json.dump(k, open(f, "w"), indent=1)
