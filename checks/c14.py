"""C14: answers do not depend on history, environment or the company of other objects."""
import copy, os, pickle, random, subprocess, sys, warnings
import numpy as np
from sim import halos, omp, ops, plots, pool
from sim import build as simbuild
from sim.util import *
from checks import c01

ID, LEVEL = "C14", "exploration"
TECHNIQUE = ("deterministic simulation of call histories over several live objects with seeded perturbation of clock, random state, working directory, memory, core count, thread schedule and pool faults; "
             "every answer and every figure (captured at the matplotlib seam) compared with the same request made alone in a fresh process")
NOTE = ("Sampled histories of up to 12 operations on up to 3 objects. Reference and history run the same code: what is wrong in every process is left to C01-C13 and C18. "
        "After a dump, shapes are compared to the 8 written digits and figures drawn from them are not judged.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 220, 6000
TIME_UNIT = "operations of the history"
RULE = ("One case = catalogues, objects and one history of operations and environment changes. Distinct: different (history prefix) by hash; "
        "counted only if at least one operation or environment change preceded the judged answer.")
REAL = ["all public methods of DensShapeProfs and DensShapeProfsGadget (real code, rebuilt from /repo)", "matplotlib up to savefig (figures are built for real)"]
STUB = ["process pool (seeded scheduling of forked workers)", "OpenMP runtime", "PDF rendering (figures are captured; the file written holds a digest), real in a fraction of the runs", "mpi4py: simulated communicator of one rank", "time.time and psutil.virtual_memory where the history perturbs them"]
ASSUMPTIONS = ["the same request in a fresh process is the reference"]
KINDS = ops.SHAPES + ops.DATA + ops.GETTERS + ops.PLOTS


def preload():
    pool.install()
    c01.preload()
    plots.install()


def gen_env(rng):
    k = rng.choice(["time", "npseed", "pyseed", "cwd", "cwd", "mem", "cpu", "sched", "print", "userfig", "err", "gc"])
    return {"env": k, "x": rng.getrandbits(30), "sched": omp.gen_sched(rng, horizon=30000) if k == "sched" else None}


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2])
    vel = rng.random() < 0.45
    cats = [ops.gen_cat(rng, vel)]
    if nc == 2:
        cats.append(ops.sibling(cats[0], rng) if rng.random() < 0.7 else ops.gen_cat(rng, vel))
    big = rng.random() < 0.04
    if big:
        cats[0]["objs"][0]["n"] = 5200
    objs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        objs.append({"cat": rng.randrange(nc), "gad": vel and rng.random() < 0.6, "center": rng.choice(["mode", "com"]) if not big else "com", "rdef": rng.choice(["Rvir", "Rvir", "R200"])})
        objs[-1]["rel"] = objs[-1]["gad"] and rng.random() < 0.5
    nobj = [len(cats[o["cat"]]["objs"]) for o in objs]
    gad = [o["gad"] for o in objs]
    hist = []
    kinds = KINDS + (ops.DUMPS if rng.random() < 0.3 else [])
    if big:
        kinds = ["vizLocal", "vizGlobal", "centers", "sph"]
    for _ in range(rng.choice([4, 6, 8, 12]) if not big else 3):
        if rng.random() < 0.25:
            hist.append(gen_env(rng))
        op = ops.gen_op(rng, nobj, gad, kinds)
        hist.append(op)
        if rng.random() < 0.25:       # the same thing again, or for another object or in other units
            q = copy.deepcopy(op)
            r = rng.random()
            if r < 0.4:
                q["out"] = rng.randrange(len(ops.OUT))
            elif r < 0.7:
                q["katz"] = 1 - q["katz"]
            elif len(q["sel"]) > 1:
                q["sel"] = q["sel"][::-1]
            hist.append(q)
    return {"cats": cats, "objs": objs, "hist": hist, "katz": [ops.gen_katz(rng), ops.gen_katz(rng)], "files": rng.choice([1, 1, 2]), "ptype": rng.choice([["dm", 1], ["stars", 4], ["gas", 0]]),
            "time": rng.choice([1.0, 0.5]), "lay": rng.getrandbits(32), "pool": pool.gen(rng, 4, 4, 0.3), "fresh": rng.random() < 0.05, "real": rng.random() < 0.02, "order": rng.getrandbits(30)}


NEUTRAL = {"seed": 1, "ncpu": 2, "fallback": 2, "stall": 0, "faults": []}


def reference(w, sc, op, tag):
    """the same request alone, in a process of its own"""
    def f():
        os.makedirs(w.work + "/ref", exist_ok=True)
        os.chdir(w.work + "/ref")
        pool.start(NEUTRAL)
        try:
            omp.configure({"policy": omp.SEQ, "threads": 1})
            ops.set_units(0)
            obj, _, viz, cat = w.open(op["obj"], "-ref" + tag)
            return ops.perform(obj, viz, cat, sc, op)
        finally:
            pool.stop()
    return isolated(f)


class Env:
    """what the history does to the environment"""

    def __init__(self, work):
        import time, psutil
        self.work, self.t, self.real, self.vm, self.keep, self.figs = work, time, time.time, psutil.virtual_memory, [], []

    def apply(self, e):
        import psutil, gc
        k, x = e["env"], e["x"]
        if k == "time":
            off = (x % 2000001 - 1000000) * 1000.0
            real = self.real
            self.t.time = lambda: real() + off
        elif k == "npseed":
            np.random.seed(x); np.random.rand(x % 7)
        elif k == "pyseed":
            random.seed(x)
        elif k == "cwd":
            d = "%s/%s%d" % (self.work, "cwd" if x % 2 else "in", x // 2 % 3)   # sometimes where another object's files lie
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif k == "mem":
            vm = self.vm()
            psutil.virtual_memory = lambda: vm._replace(available=x % 1000, free=x % 1000, total=x)
        elif k == "cpu":
            if pool.W is not None:
                pool.W.spec["ncpu"] = 1 + x % 6
        elif k == "sched":
            omp.configure(e["sched"])
        elif k == "print":
            np.set_printoptions(precision=1 + x % 3, threshold=5, suppress=bool(x % 2))
        elif k == "userfig":
            import matplotlib.pyplot as plt
            f = plt.figure()
            plt.plot([1, 2, x % 5], [3, 4, 5], label="mine")
            plt.title("mine")
            self.keep.append(f.number); self.figs.append((f, plots.content(f)))
        elif k == "err":
            np.seterr(all="ignore")
        elif k == "gc":
            gc.collect()
            (gc.disable if x % 2 else gc.enable)()

    def restore(self):
        import psutil
        self.t.time, psutil.virtual_memory = self.real, self.vm


def rtol_for(op, dumped):
    """-> tolerance or None: not judged"""
    if not dumped or op["op"] not in ops.USES_SHAPES | set(ops.DUMPS + ops.VDUMPS):
        return 1e-9
    return 2e-6 if op["op"] in ("local", "global", "vlocal", "vglobal") or op["op"].startswith("dump") else None


def only(a, b):
    """of the dumped files a those that b has too"""
    return {k: v for k, v in a.items() if k in b}


def label(n, op):
    return "step %d: %s of objects %s of analysis object %d in units %s" % (n, op["op"], op["sel"], op["obj"], ops.OUT[op["out"]])


def rows(r, name, k):
    """the part of a result that belongs to the k-th selected object"""
    if isinstance(r, dict):
        return {f: v[k] for f, v in r.items()}
    return r[k]


ROWWISE = ["local", "global", "vlocal", "vglobal", "centers", "sph", "kernel", "ell", "vizLocal", "vizGlobal"]


def run(sc, work):
    o = Obs()
    warnings.simplefilter("ignore")
    omp.configure({"policy": omp.SEQ, "threads": 1})
    plots.REAL = sc["real"]
    w = ops.World(sc, work)
    reqs = [op for op in sc["hist"] if "op" in op]
    refs, memo = {}, {}
    for n, op in enumerate(sc["hist"]):
        if "op" in op:
            key = repr(sorted(op.items()))
            if key not in memo:
                memo[key] = reference(w, sc, op, str(n))
            refs[n] = memo[key]
            if refs[n][0] == "signal":
                o.v("died-signal-%d" % refs[n][1], "alone in a fresh process, " + label(n, op))
                return o.out()
    if sc["fresh"]:
        fresh(o, sc, w, refs)
    os.makedirs(work + "/cwd0", exist_ok=True)
    os.chdir(work + "/cwd0")
    env = Env(work)
    world = pool.start(copy.deepcopy(sc["pool"]))
    dumped = set()
    try:
        order = random.Random(sc["order"])
        live, todo = {}, list(range(len(sc["objs"])))
        order.shuffle(todo)
        for k in todo:                      # all objects exist before the first request, or only when needed
            if order.random() < 0.6:
                ops.set_units(0)
                live[k] = w.open(k)
        for n, op in enumerate(sc["hist"]):
            o.simtime += 1
            if "env" in op:
                env.apply(op)
                o.count("fault:environment " + op["env"])
                continue
            if op["obj"] not in live:
                ops.set_units(0)
                live[op["obj"]] = w.open(op["obj"])
            obj, ins, viz, cat = live[op["obj"]]
            nh = len(world.hits)
            st = refs[n]
            try:
                got = ("ok", ops.perform(obj, viz, cat, sc, op, env.keep))
            except Unsupported:
                raise
            except Exception as e:
                got = ("exc", exc_text(e), isinstance(e, (MemoryError, OSError)))
            if len(world.hits) > nh:
                o.count("fault:pool worker")
                if got[0] == "exc" and got[2]:
                    continue
            if (op["obj"] in dumped) and rtol_for(op, True) is None:
                o.count("not_judged")
                continue
            where = label(n, op)
            if got[0] != st[0]:
                o.v("history-dependent", "%s: %s; alone in a fresh process: %s" % (where, got[1] if got[0] == "exc" else "answered", st[1] if st[0] == "exc" else "answered"))
                break
            if got[0] == "exc":
                o.count("refused alike")
                if got[1] != st[1]:
                    o.v("history-dependent", "%s: %s; alone in a fresh process: %s" % (where, got[1], st[1]))
                    break
                continue
            a = only(got[1], st[1]) if op["op"].startswith("dump") else got[1]
            d = ops.differ(a, st[1], rtol_for(op, op["obj"] in dumped), 1e-12 if op["obj"] not in dumped else 1e-9)
            o.count("answers judged")
            if d:
                o.v("history-dependent", "%s: differs from the answer in a fresh process: %s" % (where, d))
                break
            if op["op"] in ops.PLOTS:
                o.count("figures judged", len(got[1]))
                for f in got[1]:
                    fn = os.path.join(viz, f["file"])
                    if not os.path.exists(fn) or not plots.complete(fn):
                        o.v("plot-file", "%s: %s is missing or incomplete" % (where, f["file"]))
            o.log(n, [x if not isinstance(x[1], np.ndarray) else (x[0], x[1]) for x in plots.flat(got[1])])
            if n:
                o.sigs.append(h(sc["hist"][:n + 1], sc["objs"], sc["order"]))
            if op["op"].startswith("dump"):
                dumped.add(op["obj"])
        for f, c in env.figs:
            if plots.differ(plots.content(f), c):
                o.v("user-figure", "a figure of the user's own was drawn upon: %s" % plots.differ(plots.content(f), c))
    finally:
        env.restore()
        pool.stop()
    if not o.viol:
        subsets(o, sc, w, refs)
    if not o.viol:
        twins(o, sc, w, refs)
    o.sample = "objects %s; %s" % ([("files" if q["gad"] else "arrays", q["cat"], q["center"]) for q in sc["objs"]], ["%s@%d" % (p["op"], p["obj"]) if "op" in p else "(%s)" % p["env"] for p in sc["hist"]])
    return o.out()


def subsets(o, sc, w, refs):
    """what is said about an object does not depend on which others were asked for"""
    done = 0
    for n, op in enumerate(sc["hist"]):
        if "op" not in op or op["op"] not in ROWWISE or refs[n][0] != "ok" or done >= 3:
            continue
        nn = len(sc["cats"][sc["objs"][op["obj"]]["cat"]]["objs"])
        full = list(range(nn))
        if op["sel"] == full:
            continue
        done += 1
        r = reference(w, sc, dict(op, sel=full), "full%d" % n)
        if r[0] != "ok":
            continue
        for k, p in enumerate(op["sel"]):
            try:
                a, b = rows(refs[n][1], op["op"], k), rows(r[1], op["op"], p)
            except (IndexError, KeyError) as e:
                o.v("selection-dependent", "%s: no result for object %d" % (label(n, op), p))
                return
            d = ops.differ(a, b)
            o.count("objects compared across selections")
            if d:
                o.v("selection-dependent", "%s: what it says about object %d differs from the answer for %s: %s" % (label(n, op), p, full, d))
                return


def twins(o, sc, w, refs):
    """an object made from files and one made from the same particles as arrays agree"""
    done = 0
    for n, op in enumerate(sc["hist"]):
        if "op" not in op or not sc["objs"][op["obj"]]["gad"] or op["op"] in ops.GAD or op["op"] in ("idx",) or refs[n][0] != "ok" or done >= 2 or op["op"].startswith(("dump", "plot", "viz")):
            continue
        done += 1
        w2 = copy.copy(w)
        w2.sc = dict(sc, objs=[dict(q, gad=False) for q in sc["objs"]])
        r = reference(w2, w2.sc, op, "twin%d" % n)
        d = ops.differ(refs[n][1], r[1], 2e-6, 1e-9) if r[0] == "ok" else "it raised " + r[1]
        o.count("answers compared between files and arrays")
        if d:
            o.v("input-form", "%s: differs from the answer for an object made of the same particles as arrays: %s" % (label(n, op), d))
            return


def fresh(o, sc, w, refs):
    """the same requests in a new interpreter with another hash seed, time zone and locale"""
    todo = [n for n in refs if refs[n][0] == "ok"][:6]
    if not todo:
        return
    pi, po = w.work + "/fresh.in", w.work + "/fresh.out"
    pickle.dump(({"sc": sc, "cats": w.cats}, w.work, [sc["hist"][n] for n in todo]), open(pi, "wb"))
    env = dict(os.environ, PYTHONHASHSEED=str(1 + sc["order"] % 100000), TZ="Pacific/Kiritimati", LC_ALL="C", MALLOC_PERTURB_="90", SIM_VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([simbuild.VENV_PY, os.path.join(env["SIM_VERIF"], "sim", "fresh.py"), pi, po], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=w.work)
    if p.returncode:
        raise RuntimeError("new interpreter: " + p.stderr.decode(errors="replace")[-2000:])
    for n, r in zip(todo, pickle.load(open(po, "rb"))):
        o.count("answers judged in a new interpreter")
        d = r[1] if r[0] != "ok" else ops.differ(r[1], refs[n][1])
        if d:
            o.v("process-dependent", "%s: differs in a new interpreter: %s" % (label(n, sc["hist"][n]), d))


def shrinks(sc):
    for c in shrink_list(sc["hist"], keep=1):
        if any("op" in q for q in c):
            yield dict(sc, hist=c)
    if sc["fresh"]:
        yield dict(sc, fresh=False)
    if sc["pool"]["faults"]:
        yield dict(sc, pool=dict(sc["pool"], faults=[]))
    used = sorted({q["obj"] for q in sc["hist"] if "op" in q})
    if len(used) < len(sc["objs"]):
        yield dict(sc, objs=[sc["objs"][k] for k in used], hist=[dict(q, obj=used.index(q["obj"])) if "op" in q else q for q in sc["hist"]])
    for i, q in enumerate(sc["hist"]):
        if "op" in q and len(q["sel"]) > 1:
            for c in shrink_list(q["sel"], keep=1):
                yield dict(sc, hist=sc["hist"][:i] + [dict(q, sel=c)] + sc["hist"][i + 1:])
    for i, q in enumerate(sc["katz"]):
        if len(q["R"]) > 3:
            c = copy.deepcopy(sc)
            c["katz"][i]["R"] = q["R"][:3]
            yield c
    for ci, spec in enumerate(sc["cats"]):
        for s, drop in halos.shrink_spec(spec):
            if drop is None and all(x["n"] >= 12 for x in s["objs"]):
                yield dict(sc, cats=sc["cats"][:ci] + [s] + sc["cats"][ci + 1:])


def pin(sc, trace):
    return sc
