"""C09: what the library returns from its caches is never stale, mixed up or contaminated."""
import copy, os, random
import numpy as np
from sim import gadget_io, omp, threads
from sim.util import *
from checks import c05, c06
from checks.c05 import l_internal_over

ID, LEVEL = "C09", "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of catalogue requests, unit and threshold changes, caller mutations, read faults and memory pressure, on 1-3 threads scheduled at every bytecode of the cache, compared with the files' contents and with a fresh process"
NOTE = ("Sampled histories and schedules. Group files are taken as immutable while a process runs: replacing a file under the same path is not covered. Unit changes happen between, not during, requests of other threads.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 1600, 15000
TIME_UNIT = "scheduler steps (bytecodes of caching.py, I/O points)"
RULE = ("One case = one seeded history of 2-5 phases; each phase sets a configuration and runs 1-8 requests on 1-3 threads, callers scribble over what they got. Non-trivial: a repeated request after a change, mutation, fault or eviction; distinct: by hash of history and schedule.")
REAL = ["functions memoised with np_cache_factory, read_fof.getFoFSHData, gen_catalogues.calcObjCat, DensShapeProfsGadget, caching, config, HDF5 files"]
STUB = ["RLock (simulated)", "psutil.virtual_memory", "h5py open/read fault points", "mpi4py: simulated communicator of one rank", "OpenMP runtime, one thread"]
ASSUMPTIONS = ["group files do not change while the process runs"]


def preload():
    from checks import c01
    c01.preload()


DTYPES = ["<f8", "<f8", "<f4", "<i4", "<i8", ">f8", "<i2"]


def gen_arr(rng, nums):
    """a request to a function memoised with np_cache_factory: arrays as [shape, type, numbers], lists of lists, a plain argument"""
    def arr():
        n = len(nums)
        shapes = [(n,), (1, n), (n, 1)] + [(n // k, k) for k in (2, 3, 4) if n and n % k == 0] + ([(0, 3), (3, 0)] if n == 0 else []) + ([(), (1, 1, 1)] if n == 1 else []) + ([(2, 1, n // 2)] if n and n % 2 == 0 else [])
        return [list(rng.choice(shapes)), rng.choice(DTYPES), rng.choice([nums, nums, nums[::-1]])]

    def lol():
        l, out = list(nums), []
        while l:
            k = rng.choice([1, 1, 2, 5])
            out.append(l[:k]); l = l[k:]
        return out if rng.random() < 0.8 else [[]] + out
    na, nl = rng.choice([(1, 0), (2, 0), (1, 1), (2, 1), (0, 1)])
    return ["arr", [arr() for _ in range(na)], [lol() for _ in range(nl)], rng.choice([0, 7]), rng.choice([0, 0, 1, 2])]


def describe(arrs, lists, arg, form):
    """what the memoised function returns, in several forms of answer"""
    parts = [np.array([na_ for a in arrs for na_ in (a.ndim,) + a.shape], dtype=np.int64), np.array([ord(ch) for a in arrs for ch in a.dtype.str], dtype=np.int64)]
    parts += [np.array(a, dtype=np.float64) * 2 + arg for a in arrs]
    parts += [np.array([x for l in ls for x in [-1] + list(l)], dtype=np.int64) for ls in lists]
    return (parts, tuple(parts), {k: v for k, v in enumerate(parts)})[form]


def gen(rng, tier, i):
    dirs = []
    for _ in range(rng.choice([1, 2, 3])):
        d = c05.gen_dir(rng, "quick")
        while not d["cg"]:
            d = c05.gen_dir(rng, "quick")
        dirs.append(d)
    if rng.random() < 0.5:                          # runs of several simulations, each with a folder of the same name
        for d in dirs:
            d["name"] = dirs[0]["name"]
    tabs = [c06.gen(rng, "quick", 0)["halos"] for _ in range(rng.choice([1, 2, 3]))]
    tabs = [t for t in tabs if t] or [[{"subs": [3], "fuzz": 1, "r": 1.0}]]
    if rng.random() < 0.5 and len(tabs[0]) > 1:      # same numbers, split differently over the arguments
        t = copy.deepcopy(tabs[0])
        t[0]["subs"], t[1]["subs"] = t[0]["subs"] + t[1]["subs"], []
        tabs.append(t)
    nums = [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.choice([0, 1, 4, 6, 12]))]
    if rng.random() < 0.5:
        nums = nums[:1] * len(nums)                # all alike: only shape, type and number tell them apart
    phases = []
    reqs = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        th = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                if reqs and rng.random() < 0.5:
                    q = list(rng.choice(reqs))
                else:
                    q = gen_arr(rng, nums) if rng.random() < 0.3 else rng.choice([["fof", rng.randrange(len(dirs)), rng.choice(["Rvir", "R200"]), rng.choice([0, 1, 4])], ["cat", rng.randrange(len(tabs)), rng.choice([0, 1, 2, 5, 13])],
                                    ["obj", rng.randrange(len(dirs)), rng.choice(["Rvir", "R200"]), rng.choice([0, 1, 4]), rng.choice([1, 2, 20])]])
                    reqs.append(q)
                ops.append(q + [rng.choice(["keep", "scribble", "scribble"])])
            th.append(ops)
        phases.append({"in": c05.gen_unit(rng) if rng.random() < 0.5 else None, "out": rng.choice([None, "kpc", "Mpc/h", "kpc/h"]), "threads": th, "reask": rng.random() < 0.5, "rel": len(th) == 1 and rng.random() < 0.4})
    return {"dirs": dirs, "tabs": tabs, "phases": phases, "unit": c05.gen_unit(rng), "gb": rng.choice([0, 2]), "maxsize": rng.choice([1, 2, 128, None]), "mem": [rng.choice([1, 8]) for _ in range(4)],
            "eio": [rng.randrange(1, 60) for _ in range(rng.choice([0, 0, 1, 2]))], "sched": {"seed": rng.getrandbits(32), "policy": rng.choice(["random", "pct"]), "p": rng.choice([0.01, 0.1]), "depth": 3, "horizon": 800}}


def run(sc, work):
    import h5py, psutil
    import cosmic_profiles as cp
    from cosmic_profiles.common import caching
    o = Obs()
    omp.sequential()
    os.chdir(work)
    for d, s in enumerate(sc["dirs"]):
        dest = os.path.join(work, "d%d" % d, s["name"])
        os.makedirs(dest)
        gadget_io.write_fof(dest, s["groups"], s["cg"], s["cs"], prefix=s["prefix"], first=s["first"], drop_empty=s["drop"])
    x = np.arange(12, dtype=float).reshape(4, 3)
    gadget_io.write_snapshot(os.path.join(work, "snap"), {p: dict(x=x, v=x, m=np.ones(4), id=np.arange(4), counts=[4]) for p in (0, 1, 4)}, 100.0, 1)
    from checks.c08 import threading_patch, threading_unpatch
    nmem = [0]

    def vm():
        nmem[0] += 1
        av = sc["mem"][nmem[0] % len(sc["mem"])]
        if av < 2:
            o.count("fault:memory pressure")
        return type("svmem", (), {"available": int(av * 1024 ** 3), "total": 2 ** 40, "percent": 1.0, "used": 0, "free": 0})()
    psutil.virtual_memory = vm
    Real = h5py.File
    nio = [0]
    armed = [True]
    sched_now = [None]

    def iopoint():
        nio[0] += 1
        if sched_now[0]:
            sched_now[0].point(-50)
        if armed[0] and nio[0] in sc["eio"]:
            o.count("fault:read error")
            raise OSError(5, "simulated I/O error")

    class File(Real):
        def __init__(self, *a, **k):
            iopoint()
            Real.__init__(self, *a, **k)

        def __getitem__(self, k):
            iopoint()
            return Real.__getitem__(self, k)
    h5py.File = File
    # the caches are made at the first call, which then happens under the patched lock factories
    threading_patch(caching)
    cp.updateCachingMaxGBs(sc["gb"]); cp.updateCachingMaxSize(sc["maxsize"])
    unit, out = list(sc["unit"]), "Mpc/h"

    def configure():
        cp.updateOutUnitSystem(out, "E+10Msun/h", "km/s", unit[1])
        cp.updateInUnitSystem(unit[0], "E+10Msun/h", "km/s", unit[1])
    TYPES = {0: "gas", 1: "dm", 4: "stars"}

    rel = [False]

    def dest(d):
        if rel[0]:                                  # relative to the folder of the simulation the request is about
            os.chdir(os.path.join(work, "d%d" % d))
            return sc["dirs"][d]["name"]
        return os.path.join(work, "d%d" % d, sc["dirs"][d]["name"])

    from cosmic_profiles.common.caching import np_cache_factory
    memo = {}
    for na in range(3):
        for nl in range(2):
            def f(*args, na=na, nl=nl):
                sum(range(3))
                return describe(args[:na], args[na:na + nl], args[na + nl], args[na + nl + 1])
            memo[na, nl] = np_cache_factory(na, nl)(f)

    def arrs(q):
        return [np.array(v, dtype=t).reshape(sh) for sh, t, v in q[1]]

    def ask(q):
        """the real request; arrays exactly as returned"""
        if q[0] == "arr":
            a = arrs(q)
            r = memo[len(q[1]), len(q[2])](*a, *q[2], q[3], q[4])
            if any(not np.array_equal(x, y) for x, y in zip(a, arrs(q))):
                raise RuntimeError("the call changed its argument")
            return list(r.values()) if isinstance(r, dict) else list(r)
        if q[0] == "fof":
            from cosmic_profiles.gadget.read_fof import getFoFSHData
            return list(getFoFSHData(dest(q[1]), q[2], q[3]))
        if q[0] == "cat":
            from cosmic_profiles.gadget.gen_catalogues import calcObjCat
            return list(calcObjCat(*c06.tables({"halos": sc["tabs"][q[1]]}), np.int32(q[2])))
        obj = cp.DensShapeProfsGadget(os.path.join(work, "snap"), dest(q[1]), TYPES[q[3]], "035", work, work, RVIR_OR_R200=q[2], MIN_NUMBER_PTCS=q[4])
        a = obj.getIdxCat()
        b = obj.getR200()
        c = obj.getIdxCat()
        return [a[0], a[1], b, c[0], c[1]]

    def want(q):
        if q[0] == "arr":
            return describe(arrs(q), q[2], q[3], 0)
        if q[0] == "fof":
            return [np.array(y) for y in c05.model(sc, ["read"] + q[1:4], unit)]
        if q[0] == "cat":
            return [np.array(y) for y in c06.model({"halos": sc["tabs"][q[1]], "min": q[2]})]
        nb, sh, fof, rad = c05.model(sc, ["read"] + q[1:4], unit)
        if not nb:
            return None
        idx, sizes, rr, start = [], [], [], 0
        for g, R in zip(sc["dirs"][q[1]]["groups"], rad):
            if g["subs"] and g["subs"][0][q[3]] >= q[4]:
                n = g["subs"][0][q[3]]
                idx += range(start, start + n); sizes.append(n); rr.append(R)
            start += g["len"][q[3]]
        fac = (1 / unit[1]) / (c05.LEN[out.split("/")[0]] / (unit[1] if out.endswith("/h") else 1))
        return [np.array(y) for y in (idx, sizes, np.array(rr) * fac, idx, sizes)]
    results = []

    def request(q, where):
        what = q[-1]
        q = q[:-1]
        w = want(q)
        try:
            r = ask(q)
        except OSError as e:
            if "simulated" in str(e):
                o.count("requests failed by a fault")
                return
            o.v("exception", "%s %s: %s" % (where, q, exc_text(e)))
            return
        except ValueError as e:
            if w is not None:
                o.v("exception", "%s %s: %s" % (where, q, exc_text(e)))
            return
        except Exception as e:
            o.v("exception", "%s %s: %s" % (where, q, exc_text(e)))
            return
        o.count("answers judged")
        if w is None:
            o.v("not-refused", "%s %s: an answer from a catalogue without groups" % (where, q))
            return
        for n, (a, b) in enumerate(zip(r, w)):
            a = np.asarray(a)
            if a.shape != b.shape or not same_num(a, b, rtol=1e-6):
                o.v("stale-or-mixed-result", "%s %s (input unit %s, output unit %s): part %d is %s, a fresh computation gives %s" % (where, q, unit, out, n, a.tolist()[:30], b.tolist()[:30]))
        results.append((where, q, r, [np.array(a) for a in r]))
        o.log(q, [np.asarray(a) for a in r])
        if what == "scribble":
            o.count("answers scribbled over")
            for a in r:
                try:
                    a[...] = -77
                except (ValueError, TypeError):
                    pass
            results.pop()
    sig = 0
    for pi, ph in enumerate(sc["phases"]):
        if ph["in"]:
            unit = list(ph["in"])
        if ph["out"]:
            out = ph["out"]
        rel[0] = ph.get("rel", False) and len(ph["threads"]) == 1
        configure()
        spec = dict(sc["sched"], seed=sc["sched"]["seed"] + pi)
        if "trace" in spec:
            spec["trace"] = sc["sched"]["trace"][pi] if pi < len(sc["sched"]["trace"]) else []
        if len(ph["threads"]) == 1:
            for q in ph["threads"][0]:
                request(q, "phase %d" % pi)
            tr = []
        else:
            s = threads.Sched(spec, {caching.__file__, caching.lru_cache.__code__.co_filename})
            threads.SimLock.sched = s
            sched_now[0] = s

            def body(t, ops):
                def f():
                    for q in ops:
                        request(q, "phase %d thread %d" % (pi, t))
                return f
            oc = s.run([body(t, ops) for t, ops in enumerate(ph["threads"])])
            sched_now[0] = None
            threads.SimLock.sched = None
            o.count("switches", len(s.switches)); o.count("fault:preemption", len(s.switches))
            o.simtime += s.step
            sig = hash((sig, s.sig)) & 0xffffffffffff
            tr = s.switches
            if oc == "deadlock":
                o.v("deadlock", "phase %d: the threads wait for each other" % pi)
                return o.out()
        o.trace = (o.trace or []) + [tr]
        if o.viol:
            break
        if ph["reask"]:
            armed[0] = False
            for t in ph["threads"]:
                for q in t:
                    request(q[:-1] + ["keep"], "phase %d, asked again" % pi)
            armed[0] = True
        # earlier answers the callers kept must still be what they were
        for where, q, r, was in results:
            for a, b in zip(r, was):
                if not np.array_equal(np.asarray(a), b):
                    o.v("answer-changed-later", "%s %s: an array handed out earlier now holds other values" % (where, q))
        if o.viol:
            break
    o.sigs.append("%x-%s" % (sig, h(sc["phases"])))
    o.sample = "%d phases, requests %s, cache %s entries, units %s" % (len(sc["phases"]), [[q[0] for q in t] for p in sc["phases"] for t in p["threads"]][:6], sc["maxsize"] if not sc["gb"] else "memory-limited", [p["in"] for p in sc["phases"]])
    return o.out()


def pin(sc, trace):
    sc["sched"] = dict(sc["sched"], trace=trace)
    return sc


def shrinks(sc):
    tr = sc["sched"].get("trace")
    for i in range(len(sc["phases"])):
        if len(sc["phases"]) > 1 and (tr is None or i == len(sc["phases"]) - 1):
            yield dict(sc, phases=sc["phases"][:i] + sc["phases"][i + 1:])
    for i, p in enumerate(sc["phases"]):
        for t in range(len(p["threads"])):
            if len(p["threads"]) > 1 and tr is None:
                x = copy.deepcopy(sc["phases"]); x[i]["threads"].pop(t)
                yield dict(sc, phases=x)
            for c in shrink_list(p["threads"][t]):
                x = copy.deepcopy(sc["phases"]); x[i]["threads"][t] = c
                yield dict(sc, phases=x)
        if p["reask"]:
            x = copy.deepcopy(sc["phases"]); x[i]["reask"] = False
            yield dict(sc, phases=x)
        if p["in"]:
            x = copy.deepcopy(sc["phases"]); x[i]["in"] = None
            yield dict(sc, phases=x)
        if tr and i < len(tr):
            for c in shrink_list(tr[i]):
                yield dict(sc, sched=dict(sc["sched"], trace=tr[:i] + [c] + tr[i + 1:]))
    if sc["eio"]:
        yield dict(sc, eio=[])
    if min(sc["mem"]) < 8:
        yield dict(sc, mem=[8])
