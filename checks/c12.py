"""C12: mock halos do not depend on the worker pool."""
import copy, os, random
import numpy as np
from sim import pool
from sim.util import *
from checks import c01

ID, LEVEL = "C12", "exploration"
TECHNIQUE = ("deterministic simulation of the process pool: seeded assignment and completion order of the shells over forked workers, stalled workers, failing tasks, allocations and answers, "
             "histories of calls with changing core counts and random states; differential against a one-worker run and an analytic particle-count model")
NOTE = ("Sampled histories of up to 5 calls. The workers are real forked processes that keep their memory and random state between calls, but only one runs at a time, so races through shared files "
        "or shared memory are outside the simulation. A killed worker is not injected: the pool library itself then hangs.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 1500, 5000
TIME_UNIT = "simulated tasks"
RULE = ("One case = one seeded history of genHalo calls. Distinct: different (arguments, sequence of take/finish events of the workers) by hash; "
        "counted only if the pool had at least two workers or a fault fired.")
REAL = ["genHalo, drawUniformFromShell, profile functions (real code)", "scipy quad", "worker processes (forked, arguments serialised with dill)"]
STUB = ["pathos/multiprocessing pool (sim/pool.py schedules the workers)", "CPU affinity and CPU count"]
ASSUMPTIONS = ["workers share nothing but their arguments and results", "all three axis arrays increase outwards (nested ellipsoids)"]


def preload():
    pool.install()
    c01.preload()


def gen_args(rng):
    prof = rng.choice(["einasto", "nfw", "hernquist", "alpha_beta_gamma"])
    r200 = rng.choice([0.05, 0.7, 1.0, 2.5])
    n = rng.choice([2, 3, 4, 6, 9, 12, 20])
    lo, hi = rng.choice([(-1.5, 0.2), (-1.0, 0.0), (-2.0, 0.1), (-0.5, 0.0)])
    pars = {"r_s": round(r200 / rng.uniform(2, 12), 6)}
    if prof == "einasto":
        pars["alpha"] = round(rng.uniform(0.1, 0.4), 4)
    if prof == "alpha_beta_gamma":
        pars.update(alpha=round(rng.uniform(0.6, 2), 3), beta=round(rng.uniform(2.5, 4), 3), gamma=round(rng.uniform(0.3, 1.4), 3))
    return {"mass": float("%.6g" % 10 ** rng.uniform(8, 15)), "res": rng.choice([rng.randint(1, 30), rng.randint(30, 400), round(rng.uniform(50, 400), 3)]), "prof": prof, "pars": pars,
            "a": [lo, hi, n, r200], "grid": rng.choice(["log", "log", "lin"]), "q": rng.choice([1.0, 0.6, 0.9]), "s": rng.choice([1.0, 0.2, 0.7]), "bend": rng.choice([0, 0, 0, 0.35, -0.35])}


def gen(rng, tier, i):
    args = [gen_args(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        calls.append({"args": rng.randrange(len(args)), "np": rng.getrandbits(32) if rng.random() < 0.7 else None, "cpu": rng.choice([0, 0, 1, 2, 3, 5, 8]), "share": rng.random() < 0.5,
                      "reseed": rng.choice([None, 0, 1, 7])})
    return {"args": args, "calls": calls, "pool": pool.gen(rng, len(calls), 12, 0.35)}


def axes(p):
    lo, hi, n, r200 = p["a"]
    a = np.logspace(lo, hi, n) * r200 if p["grid"] == "log" else np.linspace(10 ** lo, 10 ** hi, n) * r200
    q, s = p["q"], min(p["s"], p["q"])
    if p.get("bend"):               # axis ratios that change with radius, the ellipsoids staying nested
        w = np.linspace(0, 1, n) * abs(p["bend"])
        w = w if p["bend"] > 0 else w[::-1]
        b, c = a * q * (1 - w), a * s * (1 - 1.2 * w)
        if np.all(np.diff(b) > 0) and np.all(np.diff(c) > 0):
            return a, b, c
    return a, a * q, a * s


def density(prof, r, p):
    x = r / p["r_s"]
    if prof == "einasto":
        return np.exp(-2 / p["alpha"] * (x ** p["alpha"] - 1))
    if prof == "alpha_beta_gamma":
        return 1 / (x ** p["gamma"] * (1 + x ** p["alpha"]) ** ((p["beta"] - p["gamma"]) / p["alpha"]))
    return 1 / (x * (1 + x) ** (2 if prof == "nfw" else 3))


_X, _W = np.polynomial.legendre.leggauss(40)


def mass(prof, p, lo, hi):
    """mass between two radii for rho_s = 1 (Gauss-Legendre in log r, split into pieces)"""
    e = np.linspace(np.log(lo), np.log(hi), 13)
    t = 0.0
    for u, v in zip(e[:-1], e[1:]):
        x = np.exp(0.5 * (v - u) * _X + 0.5 * (u + v))
        t += np.sum(_W * 4 * np.pi * x ** 3 * density(prof, x, p)) * 0.5 * (v - u)
    return t


def model(p):
    """-> dict(a, b, c, counts, rho_s) or None where no halo can be made; 'margin': distance of the closest rounding decision"""
    a, b, c = axes(p)
    tot = mass(p["prof"], p["pars"], 1e-8, a[-1])
    rho = p["mass"] / tot
    margin = 1.0
    rel = 1e-6 + 1.5e-8 / tot          # scipy's quad stops at an absolute error of 1.5e-8

    def rnd(x):
        nonlocal margin
        margin = min(margin, abs(x - np.floor(x) - 0.5) - 2 * rel * (x + 1))
        return int(round(x))
    for _ in range(60):
        n1 = rnd(p["res"] * mass(p["prof"], p["pars"], a[0], a[1]) / tot)
        if n1:
            break
        if len(a) == 2:
            return {"fail": True, "margin": margin, "rel": rel}
        keep = list(range(0, len(a), 2))
        if keep[-1] != len(a) - 1:
            keep.append(len(a) - 1)
        a, b, c = a[keep], b[keep], c[keep]
    m1 = mass(p["prof"], p["pars"], a[0], a[1])
    cnt = [rnd(n1 * mass(p["prof"], p["pars"], lo, hi) / m1) for lo, hi in zip([1e-8] + list(a[:-1]), a)]
    return {"fail": False, "a": a, "b": b, "c": c, "counts": cnt, "rho_s": rho, "margin": margin, "rel": rel}


def inside(P, a, b, c, k):
    """fraction of the way from ellipsoid k-1 to k for every particle, and its direction on the unit sphere"""
    a0, b0, c0 = (a[k - 1], b[k - 1], c[k - 1]) if k else (0.0, 0.0, 0.0)
    lo, hi = np.full(len(P), -0.01 if k else 0.0), np.full(len(P), 1.01)

    def ell(f):
        A = np.stack([a0 + f * (a[k] - a0), b0 + f * (b[k] - b0), c0 + f * (c[k] - c0)], axis=1)
        with np.errstate(all="ignore"):
            return P / A
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        out = (ell(mid) ** 2).sum(axis=1) > 1
        lo, hi = np.where(out, mid, lo), np.where(out, hi, mid)
    f = 0.5 * (lo + hi)
    return f, ell(f)


def judge(o, where, r, m, p):
    x, y, z, mdm, rho = r
    P = np.stack([x, y, z], axis=1)
    if m["margin"] < 1e-6:
        o.count("not_judged")
        return
    n = sum(m["counts"])
    o.count("halos_judged")
    if len(P) != n:
        o.v("wrong-count", "%s: %d particles, the profile's shells call for %s = %d" % (where, len(P), m["counts"], n))
        return
    if not np.all(np.isfinite(P)):
        o.v("wrong-place", "%s: %d particles without a finite position" % (where, int((~np.isfinite(P)).any(axis=1).sum())))
        return
    if not abs(rho - m["rho_s"]) <= 2 * m["rel"] * m["rho_s"]:
        o.v("wrong-mass", "%s: rho_s %r, expected %r" % (where, float(rho), m["rho_s"]))
    if not abs(mdm * n - p["mass"]) <= 2 * m["rel"] * p["mass"]:
        o.v("wrong-mass", "%s: %d particles of mass %r, halo mass %r" % (where, n, float(mdm), p["mass"]))
    # the shells' particles, whatever order the shells come in (the order itself is compared with the baseline)
    off = 0
    for k, cnt in enumerate(m["counts"]):
        Q = P[off:off + cnt]
        off += cnt
        if not cnt:
            continue
        f, u = inside(Q, m["a"], m["b"], m["c"], k)
        if f.min() < -1e-6 or f.max() > 1 + 1e-6:
            # perhaps another order of shells: count by ellipsoids instead
            o.v("wrong-place", "%s: shell %d of %d: particles lie between %.3f and %.3f of the way from its inner to its outer ellipsoid" % (where, k, len(m["counts"]), f.min(), f.max()))
            return
        if cnt >= 25:
            s = 6 / np.sqrt(cnt)
            mean, sec = u.mean(axis=0), (u ** 2).mean(axis=0)
            if np.abs(mean).max() > s * 0.58 or np.abs(sec - 1 / 3).max() > s * 0.3 or not 0.5 - s * 0.29 < f.mean() < 0.76 + s * 0.29:
                o.v("not-filled", "%s: shell %d: %d particles do not fill it: mean direction %s, mean squares %s, mean depth %.3f" % (where, k, cnt, mean.round(3), sec.round(3), f.mean()))


def call(p, pars):
    from cosmic_profiles import genHalo
    a, b, c = axes(p)
    return genHalo(p["mass"], p["res"], pars, p["prof"], a, b, c)


def run(sc, work):
    o = Obs()
    models = [model(p) for p in sc["args"]]
    # baseline: one worker, nothing before
    base = {}

    def baseline(k):
        def body():
            pool.start({"seed": 1, "ncpu": 1, "faults": []})
            np.random.seed(12345); random.seed(99)
            try:
                return [np.array(x) for x in call(sc["args"][k], dict(sc["args"][k]["pars"]))]
            finally:
                pool.stop()
        return isolated(body)
    w = pool.start(dict(sc["pool"]))
    ev = []
    shared = {}
    try:
        for n, q in enumerate(sc["calls"]):
            k = q["args"]
            p, m = sc["args"][k], models[k]
            if k not in base:
                base[k] = baseline(k)
            if q["np"] is not None:
                np.random.seed(q["np"])
                random.seed(q["np"])
            if q["reseed"] is not None:
                np.random.seed(q["reseed"])
            if q["cpu"]:
                w.spec["ncpu"] = q["cpu"]
                os.sched_getaffinity = lambda pid, c=q["cpu"]: set(range(c))
                os.cpu_count = lambda c=q["cpu"]: c
            pars = shared.setdefault(k, dict(p["pars"])) if q["share"] else dict(p["pars"])
            where = "call %d (%s, %d shells, %d workers)" % (n, p["prof"], p["a"][2], w.spec["ncpu"] or w.spec["fallback"])
            h0 = len(w.hits)
            no = w.maps
            try:
                r = call(p, pars)
                res = ("ok", [np.array(x) for x in r])
            except Unsupported:
                raise
            except Exception as e:
                res = ("exc", exc_text(e))
            w.maps = no + 1                     # fault plans are per call
            fired = len(w.hits) > h0
            if res[0] == "exc":
                o.log(n, "exc")
                if fired:
                    o.count("failed calls after a fault")
                elif m["fail"] or m["margin"] < 1e-6:
                    o.count("halos_refused")
                else:
                    o.v("exception", "%s: %s" % (where, res[1]))
            else:
                o.log(n, *res[1])
                if fired:
                    o.v("fault-hidden", "%s: a worker failed (%s) and the call returned %d particles as if nothing had happened" % (where, w.hits[h0:], len(res[1][0])))
                elif m["fail"] and m["margin"] > 1e-6:
                    o.v("no-halo", "%s: resolution %s leaves the first shell empty, yet %d particles came back" % (where, p["res"], len(res[1][0])))
                else:
                    if base[k][0] != "ok":
                        o.v("schedule", "%s: returned a halo, alone with one worker: %s" % (where, base[k][1]))
                    else:
                        for name, x, y in zip(("x", "y", "z", "mass", "rho_s"), res[1], base[k][1]):
                            if x.shape != y.shape or not np.array_equal(x, y):
                                o.v("schedule", "%s: %s differs from the run with one worker and nothing before: shape %s and %s, %s" % (
                                    where, name, x.shape, y.shape, "first at %d" % int(np.flatnonzero(x != y)[0]) if x.shape == y.shape and x.ndim else ""))
                                break
                    if not o.viol and not m["fail"]:
                        judge(o, where, res[1], m, p)
            if o.viol:
                break
        for x in w.order:
            ev.append(x)
        if max(w.nworkers or [0]) > 1 or w.hits:
            o.sigs.append(h(sc["args"], [q["args"] for q in sc["calls"]], ev))
        for x in w.hits:
            o.count("fault:worker " + x)
        o.count("forks", w.forks); o.count("tasks", w.tasks)
        if sc["pool"].get("stall") and max(w.nworkers or [0]) > 1:
            o.count("fault:stalled worker")
        if sc["pool"]["ncpu"] is None:
            o.count("fault:core count unknown")
        o.simtime = w.tasks
        if o.viol:
            o.trace = w.trace
    finally:
        pool.stop()
    o.sample = "%s; calls %s; pool %s workers" % ([(p["prof"], p["res"], p["a"][2]) for p in sc["args"]], [q["args"] for q in sc["calls"]], sc["pool"]["ncpu"])
    return o.out()


def pin(sc, trace):
    sc["pool"]["trace"] = trace
    return sc


def shrinks(sc):
    for c in shrink_list(sc["calls"], 1):
        yield dict(sc, calls=c)
    P = sc["pool"]
    if P["faults"]:
        for i in range(len(P["faults"])):
            yield dict(sc, pool=dict(P, faults=P["faults"][:i] + P["faults"][i + 1:]))
    if P.get("trace"):
        yield dict(sc, pool=dict(P, trace=[]))
        for c in shrink_list(P["trace"]):
            yield dict(sc, pool=dict(P, trace=c))
    if P["ncpu"] != 2 and "trace" not in P:
        yield dict(sc, pool=dict(P, ncpu=2))
    for i, q in enumerate(sc["calls"]):
        for s in ({"np": None}, {"cpu": 0}, {"share": False}, {"reseed": None}):
            k = list(s)[0]
            if q[k] != s[k]:
                yield dict(sc, calls=sc["calls"][:i] + [dict(q, **s)] + sc["calls"][i + 1:])
    for i, p in enumerate(sc["args"]):
        lo, hi, n, r = p["a"]
        if n > 2:
            yield dict(sc, args=sc["args"][:i] + [dict(p, a=[lo, hi, n - 1, r])] + sc["args"][i + 1:])
        if p["res"] > 10:
            yield dict(sc, args=sc["args"][:i] + [dict(p, res=int(p["res"]) // 2)] + sc["args"][i + 1:])
