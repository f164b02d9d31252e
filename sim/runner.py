"""Seeded search: distributes scenarios over warm processes, re-runs a sample to prove determinism,
minimises the first violation, writes the replay file and the evidence."""
import argparse, collections, copy, hashlib, importlib, json, os, queue, random, shutil, subprocess, sys, tempfile, threading, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from sim import build as simbuild

HARD_CAP = 800.0


class HarnessError(Exception):
    pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


class Zygote:
    def __init__(self, check, builddir, scratch, hashseed):
        env = {"PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8"}
        libs = []
        for l in getattr(check, "LIBS", ["simomp"]):
            libs.append(os.path.join(builddir, "lib%s.so" % l))
        env.update(LD_PRELOAD=":".join(libs), PYTHONPATH=builddir + ":" + VERIF, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=scratch,
                   MALLOC_PERTURB_="165", SIM_SCRATCH=scratch, SIM_BUILD=builddir, TMPDIR=scratch, HDF5_USE_FILE_LOCKING="FALSE")
        env.update(getattr(check, "ENV", {}))
        self.err = open(os.path.join(scratch, "zygote-%d.err" % hashseed), "ab")
        self.p = subprocess.Popen([simbuild.VENV_PY, os.path.join(VERIF, "sim", "zygote.py"), check.__name__.split(".")[-1]], env=env, cwd=scratch,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True)
        self.scratch, self.hashseed, self.ready = scratch, hashseed, False

    def call(self, scenario, timeout=120):
        if not self.ready:
            l = self.p.stdout.readline()
            if l.strip() != "READY":
                raise HarnessError("zygote did not start: " + open(self.err.name, errors="replace").read()[-4000:])
            self.ready = True
        self.p.stdin.write(json.dumps({"id": 0, "scenario": scenario, "timeout": timeout}) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise HarnessError("zygote died: " + open(self.err.name, errors="replace").read()[-4000:])
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()
        self.err.close()


def interpret(o):
    """zygote answer -> list of violations [{kind,msg}] ; raises HarnessError"""
    s = o["status"]
    if s == "ok":
        return o["result"].get("violations", [])
    if s == "signal":
        if o["signal"] == 9:
            raise HarnessError("run killed (memory?): " + o.get("error", ""))
        return [{"kind": "died-signal-%d" % o["signal"], "msg": "the process died with signal %d; %s" % (o["signal"], o.get("error", "")[-300:])}]
    if s == "deadlock":
        return [{"kind": "deadlock", "msg": "no thread can run: deadlock in a parallel region"}]
    if s == "steplimit":
        return [{"kind": "no-progress", "msg": "step bound exceeded without finishing"}]
    if s == "timeout":
        return [{"kind": "no-progress-wall", "msg": "the run did not end within %.0f s of wall-clock time, and not when it was repeated with twice the time either" % o.get("wall", 0)}]
    raise HarnessError(o.get("error", "?"))


class Pool:
    def __init__(self, check, builddir, scratch, n):
        self.z = [Zygote(check, builddir, scratch, 1000 + i) for i in range(n)]
        self.unrepeatable = collections.Counter()

    def ask(self, i, sc, timeout):
        """One run, with its verdict made repeatable: a death by a signal or a run that does not end counts only if the same
        scenario does it again in a fresh process (one seed is one execution; what does not repeat is the simulator's, and is
        counted in the evidence)."""
        o = self.z[i].call(sc, timeout)
        if o["status"] == "signal":
            for _ in range(3):
                o2 = self.z[i].call(sc, timeout)
                if o2["status"] == "signal" and o2["signal"] != 9:
                    return o2
            self.unrepeatable["died-signal-%d" % o["signal"]] += 1
            sys.stderr.write("note: seed %s died with signal %d once and not when repeated\n%s\n" % (sc.get("_seed"), o["signal"], o.get("error", "")[-1500:]))
            return o2
        if o["status"] == "timeout":
            o2 = self.z[i].call(sc, 2 * timeout)
            if o2["status"] != "timeout":
                self.unrepeatable["timeout"] += 1
            return o2
        return o

    def map(self, items, timeout, on_result, stop):
        """items: iterable of (key, scenario). on_result(key, scenario, answer, zindex)"""
        q = iter(items)
        lock = threading.Lock()
        errs = []

        def work(i):
            while not stop() and not errs:
                with lock:
                    try:
                        k, sc = next(q)
                    except StopIteration:
                        return
                try:
                    o = self.ask(i, sc, timeout)
                    with lock:
                        on_result(k, sc, o, i)
                except BaseException as e:
                    errs.append(e)
                    return
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(self.z))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]

    def close(self):
        for z in self.z:
            z.close()


def scenario_for(check, seed, tier, i):
    rng = random.Random("%s/%d/%d" % (check.ID, seed, i))
    sc = check.gen(rng, tier, i)
    sc["_seed"] = "%d/%d" % (seed, i)
    return sc


def digest(o):
    return hashlib.sha256(json.dumps([o["status"], (o.get("result") or {}).get("digest"), (o.get("result") or {}).get("violations")], sort_keys=True).encode()).hexdigest()[:16]


def minimise(check, pool, sc, viols, deadline):
    """greedy: keep any smaller scenario that still shows a violation of the same kind"""
    kind = viols[0]["kind"]
    best, bestv, tried = sc, viols, 0
    if not hasattr(check, "shrinks"):
        return best, bestv, tried
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        cands = check.shrinks(copy.deepcopy(best))
        found = {}

        def on(k, s, o, i):
            nonlocal tried
            tried += 1
            try:
                v = [x for x in interpret(o) if x["kind"] == kind]
            except HarnessError:
                return
            if v:
                found[k] = (s, v)
        it = iter(cands)

        def gen():
            k = 0
            for c in it:
                yield k, c
                k += 1
        pool.map(gen(), 60, on, lambda: bool(found) or time.monotonic() > deadline)
        if found:
            k = min(found)
            best, bestv = found[k]
            progress = True
    return best, bestv, tried


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--only", type=int, help="run a single seed index")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--selfcheck", type=int, default=None, help="number of seeds re-run for the determinism check")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    t0 = time.monotonic()
    check = importlib.import_module("checks." + a.id.lower())
    try:
        b = simbuild.build()
    except simbuild.BuildError as e:
        sys.stderr.write("HARNESS build failed\n%s\n" % e)
        return 2
    tbuild = time.monotonic() - t0
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % a.id.lower())
    pool = None
    try:
        pool = Pool(check, b, scratch, 1 if (a.replay or a.only is not None) else a.workers)
        if a.replay:
            return do_replay(check, pool, a)
        return do_search(check, pool, a, t0, tbuild)
    except HarnessError as e:
        sys.stderr.write("HARNESS ERROR property=%s (no verdict)\n%s\n" % (check.ID, e))
        return 2
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(check, pool, a):
    rp = json.load(open(a.replay))
    o = pool.ask(0, rp["scenario"], 120)
    v = interpret(o)
    for x in v:
        print("  %s: %s" % (x["kind"], x["msg"]))
    same = [x for x in v if x["kind"] == rp["violation"]["kind"]]
    print("digest recorded=%s now=%s" % (rp.get("digest"), digest(o)))
    if same:
        print("VIOLATION property=%s replay=%s" % (check.ID, a.replay))
        return 1
    print("replay did not reproduce" if not v else "replay shows a different violation")
    return 0 if not v else 1


def do_search(check, pool, a, t0, tbuild):
    known = [k for k in load_known() if k["property"] == check.ID and k.get("status") == "known"]
    knownsig = {k["signature"] for k in known}
    nruns = a.runs or (check.RUNS_THOROUGH if a.tier == "thorough" else check.RUNS)
    cap = 600 if a.tier == "thorough" else getattr(check, "SOFT_CAP", 240)
    soft = min(time.monotonic() + cap, t0 + max(cap, 480))  # a slow build must not eat up the search
    counts, sigs, seen_known = collections.Counter(), set(), {}
    states = collections.Counter()
    fails, samples, digests = [], [], {}
    done = [0]
    simtime = [0.0]
    tstart = time.monotonic()

    def items():
        rng = [a.only] if a.only is not None else range(nruns)
        for i in rng:
            yield i, scenario_for(check, a.seed, a.tier, i)

    def on(k, sc, o, zi):
        v = interpret(o)
        done[0] += 1
        digests[k] = (digest(o), zi)
        r = o.get("result") or {}
        counts.update(r.get("stats", {}))
        for s in r.get("sigs", []):
            states[s] += 1
        simtime[0] += r.get("simtime", 0.0)
        if len(samples) < 3 and r.get("sample"):
            samples.append(r["sample"])
        new = []
        for x in v:
            if x.get("sig") in knownsig:
                seen_known[x["sig"]] = x
            else:
                new.append(x)
        if a.v or a.only is not None:
            print(k, o["status"], "%.2fs" % o["wall"], [(x["kind"], x["msg"][:300]) for x in v], json.dumps(r.get("stats", {})))
        if new:
            fails.append((k, sc, new, o))
    pool.map(items(), 120, on, lambda: bool(fails) or time.monotonic() > soft)
    if not fails and done[0] < (nruns if a.only is None else 1) and done[0] < max(4, nruns // 8):
        raise HarnessError("only %d of %d runs finished within the time bound" % (done[0], nruns))
    # determinism: the same seeds again, in other processes with other hash seeds
    nsc = a.selfcheck if a.selfcheck is not None else (40 if a.tier == "thorough" else 8)
    rerun = 0
    if not fails and a.only is None:
        ks = sorted(digests)[:: max(1, len(digests) // max(1, nsc))][:nsc]
        bad = []

        def on2(k, sc, o, zi):
            nonlocal rerun
            rerun += 1
            interpret(o)
            if digest(o) != digests[k][0]:
                bad.append(k)
        order = list(ks)
        random.Random(a.seed).shuffle(order)
        pool.map(((k, scenario_for(check, a.seed, a.tier, k)) for k in order), 120, on2, lambda: False)
        if bad:
            raise HarnessError("non-deterministic runs: seeds %s gave different logs when repeated" % bad)
    wall_search = time.monotonic() - tstart
    for k in known:
        what = k["what"]
        if k["signature"] in seen_known or not k.get("demonstrated_each_run", True):
            print("KNOWN-FINDING: property=%s %s" % (check.ID, what))
    rc = 0
    viol_out = []
    if fails:
        rc = 1
        fails.sort(key=lambda f: f[0])
        k, sc, v, o = fails[0]
        budget = min(100 if a.tier == "quick" else 300, max(10, HARD_CAP - (time.monotonic() - t0) - 30))
        end = time.monotonic() + budget
        # first with the seeded schedule, then with the explicit schedule of what is left
        slow = v[0]["kind"] == "no-progress-wall"  # nothing to gain from minutes per attempt
        m, mv, tried = (sc, v, 0) if slow else minimise(check, pool, sc, v, time.monotonic() + budget * 0.6)
        if hasattr(check, "pin") and not slow:
            o = pool.z[0].call(m, 200)
            tr = (o.get("result") or {}).get("trace")
            if tr is not None:
                pinned = check.pin(copy.deepcopy(m), tr)
                try:
                    pv = [x for x in interpret(pool.z[0].call(pinned, 120)) if x["kind"] == v[0]["kind"]]
                except HarnessError:
                    pv = []
                if pv:
                    m, mv, t2 = minimise(check, pool, pinned, pv, end)
                    tried += t2
        # the replay must reproduce in a process that has run nothing else
        fin, finv = o, mv
        if not slow:
            for m, mv in ((m, mv), (sc, v)):
                fin = pool.ask(len(pool.z) - 1, m, 120)
                try:
                    finv = [x for x in interpret(fin) if x["kind"] == mv[0]["kind"]]
                except HarnessError:
                    finv = []
                if finv:
                    break
            else:
                raise HarnessError("seed %s showed %s once and not again: no verdict" % (sc["_seed"], v[0]))
        rdir = os.environ.get("SIM_REPLAYS", os.path.join(VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s.json" % (check.ID, hashlib.sha256(json.dumps(m, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump({"property": check.ID, "seed": sc["_seed"], "violation": mv[0], "digest": digest(fin), "scenario": m, "shrink_attempts": tried}, f)
        for x in mv[:3]:
            print("  seed=%s %s: %s" % (sc["_seed"], x["kind"], x["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        viol_out = [{"seed": sc["_seed"], "kind": mv[0]["kind"], "msg": mv[0]["msg"][:500], "replay": path}]
    write_evidence(check, a, done[0], states, counts, samples, t0, tbuild, wall_search, rerun, viol_out, simtime[0], known, dict(pool.unrepeatable))
    if pool.unrepeatable:
        print("note: not repeatable, not counted as violations: %s" % dict(pool.unrepeatable))
    print("%s %s: %d runs, %d distinct, %.0f s (build %.0f s), %s" % (check.ID, a.tier, done[0], len(states), time.monotonic() - t0, tbuild, "VIOLATION" if rc else "held"))
    return rc


def write_evidence(check, a, runs, states, counts, samples, t0, tbuild, ws, rerun, viol, simtime, known, unrep):
    ev = {"property": check.ID, "tier": a.tier, "seed": a.seed, "level": check.LEVEL,
          "coverage": {"evaluations": runs, "distinct_nontrivial": len(states), "rule": check.RULE, "samples": samples[:3] or ["(no sample)"],
                       "runs_per_hour": round(runs / max(ws, 1e-3) * 3600), "simulated_time": simtime, "simulated_time_unit": getattr(check, "TIME_UNIT", "scheduler steps"),
                       "counts": {k: counts[k] for k in sorted(counts)},
                       "faults_injected": {k[6:]: counts[k] for k in sorted(counts) if k.startswith("fault:")},
                       "components_real": check.REAL, "components_stub": check.STUB,
                       "determinism_reruns_identical": rerun, "known_findings": [k["what"] for k in known], "unrepeatable_runs": unrep, "build_s": round(tbuild, 1), "violation_list": viol},
          "assumptions": check.ASSUMPTIONS, "wall_s": round(time.monotonic() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
