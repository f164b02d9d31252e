"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 "C16": "analytic profile formulas: pure functions of their arguments; no concurrency, time, I/O, randomness or second party for a schedule or fault to act on, so deterministic simulation has nothing to decide",
 "C17": "cosmology helper formulas: pure functions of their arguments with nothing a simulator could schedule or fail",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        def get(n, d=None):
            m = re.search(r"^%s = (\([\s\S]*?\"\)|\".*\")$" % n, src, re.M)
            return eval(m.group(1)) if m else d
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": get("TECHNIQUE"), "level": "exploration", "level_note": get("NOTE"), "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": "none", "enable": "no hook in /repo: the simulator interposes at the OpenMP runtime, libc, mpi4py, pathos and psutil seams and recompiles /repo's sources with access instrumentation", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3 check.py <id> --replay <file> re-executes a recorded failure; VERIF_SEED selects the seed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
