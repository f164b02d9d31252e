"""C13: density fits and concentrations under the process pool."""
import os, random, warnings
import numpy as np
from sim import models, pool
from sim.util import *
from checks import c01

ID, LEVEL = "C13", "exploration"
TECHNIQUE = ("deterministic simulation of the fitting process pool: seeded assignment and completion order of the objects over forked workers, stalled workers, failing tasks, allocations and answers, "
             "histories of fits of permuted selections with changing core counts; differential against fitting each object alone in a fresh process, and against an independent fit")
NOTE = ("Sampled histories of up to 4 calls over up to 24 objects. Whether a minimiser finds the best minimum is not judged, only that the row is the one this object gets alone "
        "(and, where rounding does not decide, the one an independently written objective gets). Only one worker runs at a time; a killed worker is not injected, the pool library itself then hangs.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 420, 4000
TIME_UNIT = "simulated tasks"
RULE = ("One case = one seeded history of fitDensProfs/estConcentrations calls. Distinct: different (profiles, method, calls, sequence of take/finish events of the workers) by hash; "
        "counted only if the pool had at least two workers or a fault fired.")
REAL = ["DensShapeProfs constructor, fitDensProfs, estConcentrations, getR200, fitDensProf (real code)", "scipy minimisers", "worker processes (forked, arguments serialised with dill)"]
STUB = ["pathos/multiprocessing pool (sim/pool.py schedules the workers)", "CPU affinity and CPU count"]
ASSUMPTIONS = ["workers share nothing but their arguments and results", "scipy's minimisers are deterministic"]
METHODS = ["Powell", "Nelder-Mead", "L-BFGS-B", "TNC", "SLSQP", "trust-constr"]
PARS = {"nfw": ["r_s"], "hernquist": ["r_s"], "einasto": ["alpha", "r_s"], "alpha_beta_gamma": ["alpha", "beta", "gamma", "r_s"]}
UNFIT = ("nan", "zero", "inf", "negative", "r200zero")


def preload():
    pool.install()
    c01.preload()


def gen_method(rng):
    prof = rng.choice(["nfw", "nfw", "hernquist", "einasto", "einasto", "alpha_beta_gamma"])
    m = {"profile": prof}
    if rng.random() < 0.6:
        m["min_method"] = rng.choice(METHODS if prof != "alpha_beta_gamma" else METHODS[:5])
    if rng.random() < 0.35:
        for n in PARS[prof]:
            if rng.random() < 0.5:
                m[n] = {"alpha": 0.2 if prof == "einasto" else 1.0, "beta": 3.0, "gamma": 1.0, "r_s": 0.21}[n]
        if rng.random() < 0.3:
            m["rho_s"] = float("%.4g" % 10 ** rng.uniform(12, 17))
    return m        # in internal units


def gen(rng, tier, i):
    method = gen_method(rng)
    heavy = method["profile"] == "alpha_beta_gamma" or method.get("min_method") == "trust-constr"
    nobj = rng.choice([1, 2, 3, 4, 6] if heavy else [1, 2, 3, 5, 8, 12, 24])
    objs = []
    for k in range(nobj):
        bad = rng.choice(["", "", "", "", "gaps", "few"] + list(UNFIT)) if rng.random() < 0.6 else ""
        objs.append({"r200": 0.0 if bad == "r200zero" else round(10 ** rng.uniform(-1.5, 0.4), 5), "c": round(rng.uniform(2, 14), 3), "rho": round(rng.uniform(12, 17), 3),
                     "noise": rng.choice([0.0, 0.02, 0.2, 0.5]), "seed": rng.getrandbits(31), "bad": bad, "shape": rng.choice(["nfw", "hernquist", "einasto"])})
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ids = list(range(nobj))
        how = rng.choice(["all", "perm", "subset", "rev"])
        if how in ("perm", "subset"):
            rng.shuffle(ids)
        if how == "subset":
            ids = ids[:rng.randint(1, nobj)]
        if how == "rev":
            ids = ids[::-1]
        calls.append({"fn": rng.choice(["fit", "fit", "conc"]), "sel": ids, "cpu": rng.choice([0, 0, 1, 2, 3, 5, 8]), "arr": rng.random() < 0.4})
    return {"method": method, "objs": objs, "calls": calls, "nR": rng.choice([1, 2, 5, 8, 12, 20]) if not heavy else rng.choice([5, 8]), "noise": rng.getrandbits(31),
            "modelled": [rng.randrange(nobj) for _ in range(2)], "pool": pool.gen(rng, len(calls), nobj, 0.35), "units": rng.random() < 0.3}


def profiles(sc):
    R = np.logspace(-1.5, 0.0, sc["nR"]) if sc["nR"] > 1 else np.array([0.3])
    out = []
    for o in sc["objs"]:
        g = np.random.RandomState(o["seed"])
        r200 = o["r200"] or 0.5
        p = [10 ** o["rho"]] + ([0.18] if o["shape"] == "einasto" else []) + [r200 / o["c"]]
        y = models.prof_value(o["shape"], R * r200, p) * np.exp(o["noise"] * g.normal(size=len(R)))
        if o["bad"] in ("gaps", "few"):
            keep = g.permutation(len(R))[:max(1, len(R) // 2 if o["bad"] == "gaps" else 2)]
            z = np.full(len(R), np.nan)
            z[keep] = y[keep]
            y = z
        elif o["bad"] == "nan":
            y[:] = np.nan
        elif o["bad"] == "zero":
            y[g.randint(len(R))] = 0
        elif o["bad"] == "inf":
            y[g.randint(len(R))] = np.inf
        elif o["bad"] == "negative":
            y[g.randint(len(R))] *= -1
        out.append(y)
    return R, np.array(out)


def units(sc):
    import cosmic_profiles as cp
    c01.units()
    if sc["units"]:
        cp.updateOutUnitSystem("kpc", "Msun", "km/s", 0.6774)


def factors():
    """output units over internal ones: length, density"""
    import cosmic_profiles.common.config as config
    l_int, m_int, v_int = config.getLMVInternal()
    fl = l_int / config.OutUnitLength_in_cm
    return fl, m_int / 1e10 / config.OutUnitMass_in_g / fl ** 3


def handed(sc):
    """the method as the user hands it over, its fixed parameters in the output units in force"""
    fl, fd = factors()
    return {k: v * {"r_s": fl, "rho_s": fd}.get(k, 1.0) if k in ("r_s", "rho_s") else v for k, v in sc["method"].items()}


def make(sc, work):
    from cosmic_profiles import DensShapeProfs
    n = len(sc["objs"])
    g = np.random.RandomState(sc["noise"])
    x = g.uniform(4, 6, size=(3 * n, 3))
    return DensShapeProfs(x, np.full(3 * n, 0.01), [list(range(3 * k, 3 * k + 3)) for k in range(n)], np.array([o["r200"] for o in sc["objs"]]), 10.0, "035", work + "/viz", work + "/cat", MIN_NUMBER_PTCS=1)


def rows(r, prof):
    """structured result -> (n, npar) parameters, flags"""
    names = ["rho_s"] + PARS[prof]
    if set(r.dtype.names) != set(names + ["is_conv"]):
        return None, None
    return np.stack([r[n] for n in names], axis=1), r["is_conv"]


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and models.same(a, b, tol)


def run(sc, work):
    warnings.simplefilter("ignore")
    o = Obs()
    R, Y = profiles(sc)
    prof = sc["method"]["profile"]
    need = sorted({k for c in sc["calls"] for k in c["sel"]})

    def alone():
        """every object on its own, one worker, fresh object"""
        pool.start({"seed": 1, "ncpu": 1, "faults": []})
        try:
            units(sc)
            ob = make(sc, work)
            out = {}
            for k in need:
                f, cv = rows(ob.fitDensProfs(Y[k:k + 1], R, handed(sc), [k]), prof)
                out[k] = (f[0], bool(cv[0]), float(ob.estConcentrations(Y[k:k + 1], R, handed(sc), [k])[0]))
            return out, np.array(ob.getR200())
        finally:
            pool.stop()
    kind, res = isolated(alone)
    if kind != "ok":
        o.v("exception", "fitting every object alone with one worker: %s" % (res,))
        return o.out()
    ref, r200 = res
    # unfittable rows, and the model on some of the others
    units(sc)
    fl, fd = factors()
    fixed = {(["rho_s"] + PARS[prof]).index(n): v for n, v in handed(sc).items() if n in ["rho_s"] + PARS[prof]}
    for k in need:
        p, cv, c = ref[k]
        ob = sc["objs"][k]
        lab = "object %d (%s) alone, %s" % (k, ob["bad"] or "plain", sc["method"])
        if bool(np.isnan(p).all()) != bool(np.isnan(p).any()) or np.isnan(p).any() == cv or np.isnan(c) == cv:
            o.v("half-fitted", "%s: parameters %s, is_conv %s, concentration %s" % (lab, p, cv, c))
        elif ob["bad"] in UNFIT and cv:
            o.v("fit-of-nothing", "%s: the profile cannot be fitted, yet parameters %s are reported as converged" % (lab, p))
        elif cv and not close(c * p[-1], r200[k], 1e-9):
            o.v("concentration", "%s: concentration %r times scale radius %r is not the object's radius %r" % (lab, c, p[-1], r200[k]))
        elif cv and any(not close(p[n], v, 1e-9) for n, v in fixed.items()):
            o.v("not-kept-fixed", "%s, handed over in output units as %s: parameters %s" % (lab, handed(sc), p))
        elif k in sc["modelled"]:
            # Y in the output units; the fit works on internal ones
            md, judged = models.fit_stable(R, sc["method"], Y[k] / fd, ob["r200"], n=2)
            if judged:
                o.count("rows_modelled")
                md = md * 1.0
                md[0] *= fd
                md[-1] *= fl
                if not close(p, md, 1e-4):
                    o.v("wrong-fit", "%s: parameters %s, an independent fit of this profile gives %s" % (lab, p, md))
        if o.viol:
            return o.out()
    spec = dict(sc["pool"])
    w = pool.start(spec)
    try:
        ob = make(sc, work)
        for n, q in enumerate(sc["calls"]):
            sel = q["sel"]
            if q["cpu"]:
                w.spec["ncpu"] = q["cpu"]
                os.sched_getaffinity = lambda pid, c=q["cpu"]: set(range(c))
                os.cpu_count = lambda c=q["cpu"]: c
            where = "call %d (%s of objects %s, %s, %d workers)" % (n, q["fn"], sel, sc["method"], w.spec["ncpu"] or w.spec["fallback"])
            h0, no = len(w.hits), w.maps
            f = ob.fitDensProfs if q["fn"] == "fit" else ob.estConcentrations
            try:
                r = f(Y[sel].copy(), R.copy(), handed(sc), np.array(sel) if q["arr"] else list(sel))
            except Unsupported:
                raise
            except Exception as e:
                r, err = None, exc_text(e)
            w.maps = no + 1
            fired = w.hits[h0:]
            if r is None:
                o.log(n, "exc")
                if fired:
                    o.count("failed calls after a fault")
                else:
                    o.v("exception", "%s: %s" % (where, err))
                    break
                continue
            if fired:
                o.v("fault-hidden", "%s: a worker failed (%s) and the call returned as if nothing had happened" % (where, fired))
                break
            if q["fn"] == "fit":
                P, cv = rows(r, prof)
                if P is None or len(P) != len(sel):
                    o.v("wrong-shape", "%s: returned %s of %s" % (where, r.shape, r.dtype.names))
                    break
                o.log(n, P, cv)
                for j, k in enumerate(sel):
                    if not close(P[j], ref[k][0]) or bool(cv[j]) != ref[k][1]:
                        other = [b for b in need if b != k and close(P[j], ref[b][0])]
                        o.v("wrong-row", "%s: row %d (object %d) is %s %s; this object alone gives %s %s%s" % (where, j, k, P[j], cv[j], ref[k][0], ref[k][1], "; it is object %d's" % other[0] if other else ""))
                        break
            else:
                r = np.asarray(r)
                if r.shape != (len(sel),):
                    o.v("wrong-shape", "%s: returned %s" % (where, r.shape))
                    break
                o.log(n, r)
                for j, k in enumerate(sel):
                    if not close(r[j], ref[k][2]):
                        o.v("wrong-row", "%s: concentration %d (object %d) is %r; this object alone gives %r" % (where, j, k, float(r[j]), ref[k][2]))
                        break
            if o.viol:
                break
            o.count("rows_judged", len(sel))
        if max(w.nworkers or [0]) > 1 or w.hits:
            o.sigs.append(h(sc["objs"], sc["method"], sc["calls"], list(w.order)))
        for x in w.hits:
            o.count("fault:worker " + x)
        for b in {x["bad"] for x in sc["objs"]} & set(UNFIT):
            o.count("fault:unfittable profile (%s)" % b)
        o.count("forks", w.forks); o.count("tasks", w.tasks)
        if sc["pool"].get("stall") and max(w.nworkers or [0]) > 1:
            o.count("fault:stalled worker")
        if sc["pool"]["ncpu"] is None:
            o.count("fault:core count unknown")
        o.simtime = w.tasks
        if o.viol:
            o.trace = w.trace
    finally:
        pool.stop()
    o.sample = "%s; %d objects (%s), %d radii; calls %s; pool %s workers" % (sc["method"], len(sc["objs"]), ",".join(x["bad"] or "-" for x in sc["objs"]), sc["nR"],
                                                                               [(q["fn"], q["sel"]) for q in sc["calls"]], sc["pool"]["ncpu"])
    return o.out()


def pin(sc, trace):
    sc["pool"]["trace"] = trace
    return sc


def shrinks(sc):
    for c in shrink_list(sc["calls"], 1):
        yield dict(sc, calls=c)
    P = sc["pool"]
    for i in range(len(P["faults"])):
        yield dict(sc, pool=dict(P, faults=P["faults"][:i] + P["faults"][i + 1:]))
    for k in range(len(sc["objs"]) - 1, -1, -1):     # an object nobody asks for, at the end
        if len(sc["objs"]) > 1:
            calls = []
            for q in sc["calls"]:
                s = [a - (a > k) for a in q["sel"] if a != k]
                if s:
                    calls.append(dict(q, sel=s))
            if calls:
                yield dict(sc, objs=sc["objs"][:k] + sc["objs"][k + 1:], calls=calls, modelled=[a - (a > k) for a in sc["modelled"] if a != k])
    if P.get("trace"):
        yield dict(sc, pool=dict(P, trace=[]))
        for c in shrink_list(P["trace"]):
            yield dict(sc, pool=dict(P, trace=c))
    for i, q in enumerate(sc["calls"]):
        for s in ({"cpu": 0}, {"arr": False}, {"sel": sorted(q["sel"])}, {"sel": q["sel"][:1]}):
            k = list(s)[0]
            if q[k] != s[k]:
                yield dict(sc, calls=sc["calls"][:i] + [dict(q, **s)] + sc["calls"][i + 1:])
    if sc["units"]:
        yield dict(sc, units=False)
    for n in ("rho_s", "alpha", "beta", "gamma", "r_s"):
        if n in sc["method"]:
            yield dict(sc, method={k: v for k, v in sc["method"].items() if k != n})
    if "min_method" in sc["method"]:
        yield dict(sc, method={k: v for k, v in sc["method"].items() if k != "min_method"})
    if sc["nR"] > 5:
        yield dict(sc, nR=5)
    for i, b in enumerate(sc["objs"]):
        for s in ({"bad": "", "r200": b["r200"] or 0.5}, {"noise": 0.0}):
            k = list(s)[0]
            if b[k] != s[k]:
                yield dict(sc, objs=sc["objs"][:i] + [dict(b, **s)] + sc["objs"][i + 1:])
