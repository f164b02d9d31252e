"""C01: position shape catalogues, local and global."""
import copy
import numpy as np
from sim import halos, models, omp
from sim.util import *

ID, LEVEL = "C01", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of the OpenMP threads at every memory access, differential against a sequential reference model"
NOTE = ("Sampled schedules (chunk assignment, log-gap preemption, PCT, race-directed, starvation) and sampled catalogues; sequentially consistent memory; numpy/LAPACK internals are atomic steps; "
        "rows whose value hinges on rounding are not judged. The reference model is an independent Python implementation of the Katz iteration.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 3000, 8000
RULE = ("One case = one seeded catalogue and iteration setting run under 3 seeded thread schedules (team size, assignment of work, preemption at memory accesses). "
        "Non-trivial: the run had a team of at least two threads and at least one switch; distinct: different (catalogue, schedule) pair, by hash of the switch sequence.")
REAL = ["shape_profs_algos, shape_profs_classes, cosmic_base_class, dens_profs_classes, helper_class (real code, rebuilt from /repo, compiled with access hooks)", "numpy/LAPACK"]
STUB = ["OpenMP runtime (libsimomp.so: real threads, simulated scheduling)", "mpi4py: simulated communicator of one rank"]
ASSUMPTIONS = ["memory accesses inside LAPACK and numpy are atomic steps", "sequentially consistent memory", "comparisons decided by rounding (margin < 1e-7) are not judged"]


def preload():
    import numpy, scipy.linalg, scipy.optimize, scipy.interpolate
    import os
    from sim import mpi
    mpi.solo()
    import cosmic_profiles  # noqa
    assert cosmic_profiles.__file__.startswith(os.environ["SIM_BUILD"]), cosmic_profiles.__file__


def gen(rng, tier, i):
    spec = halos.gen_spec(rng, max_n=120 if tier == "quick" else 250)
    n = len(spec["objs"])
    sel = list(range(n))
    if rng.random() < 0.3:
        sel = rng.sample(sel, rng.randint(1, n))
    katz = halos.gen_katz(rng)
    return {"spec": spec, "katz": katz, "center": rng.choice(["mode", "com"]), "which": rng.choice(["local", "local", "global"]), "sel": sel,
            "scheds": [omp.gen_sched(rng, horizon=40000) for _ in range(3)]}


def units():
    import cosmic_profiles as cp
    cp.updateInUnitSystem("Mpc/h", "E+10Msun/h", "km/s", 0.6774)
    cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", 0.6774)


def expected(cat, sel, sc, vel=False):
    """model rows: list per selected object of Shape or list of Shape"""
    exp = []
    cfg = {k: sc["katz"][k] for k in ("tol", "wall", "min", "reduced", "shell")}
    for p in sel:
        ids = np.array(cat.idx[p])
        x, m = cat.x[ids], cat.m[ids]
        xu = models.unwrap(x, cat.L)
        if not models.extent_ok(xu, cat.L):
            exp.append(None)
            continue
        c, mar = models.center(xu, m, sc["center"])
        if (sc["center"] == "com" or sc.get("inexact")) and cfg["reduced"] and np.min(np.linalg.norm(xu - c, axis=1)) < 1e-6:
            mar = 0.0  # the sum behind this centre is rounded: the weight of the particle next to it is rounding error
        vk = {}
        if vel:
            v = cat.v[ids]
            vk = dict(vel=v, vc=models.com(v, m))
        if sc["which"] == "local":
            rows = models.shape_local(xu, m, c, cat.r200[p], sc["katz"]["R"], cfg, **vk)
        else:
            rows = [models.shape_global(xu, m, c, cat.r200[p], cfg, **vk)]
        for r in rows:
            r.margin = min(r.margin, mar)
        exp.append(rows)
    return exp


def compare(o, got, exp, sc, label, tol=2e-6, vel=False):
    """got: structured array; exp: model rows"""
    n = len(exp)
    nr = len(sc["katz"]["R"]) if sc["which"] == "local" else 1
    g = got.reshape(n, -1)
    if g.shape[1] != nr:
        o.v("wrong-shape", "%s: array of shape %s for %d objects and %d radii" % (label, got.shape, n, nr))
        return
    for i in range(n):
        if exp[i] is None:
            o.count("not_judged")
            continue
        for k in range(nr):
            e, r = exp[i][k], g[i, k]
            if e.margin < 1e-7:
                o.count("not_judged")
                continue
            o.count("rows_judged")
            if e.flat:
                o.count("rows_flat")
            where = "%s: object %d (selected as no. %d), radius %d" % (label, sc["sel"][i], i, k)
            if e.flat and bool(r["is_conv"]) and 0 < r["s"] < 1e-3:
                continue
            if not e.conv:
                o.count("rows_unconverged")
                if bool(r["is_conv"]) or not all(np.all(np.isnan(r[f])) for f in ("d", "q", "s", "major", "inter", "minor")):
                    o.v("wrong-shape", "%s: must be reported unconverged (NaN), got q=%r s=%r conv=%r" % (where, float(r["q"]), float(r["s"]), bool(r["is_conv"])))
                continue
            if not bool(r["is_conv"]) or np.isnan(r["q"]):
                o.v("wrong-shape", "%s: expected q=%.8g s=%.8g, reported unconverged" % (where, e.q, e.s))
                continue
            for f, val in (("d", e.d), ("q", e.q), ("s", e.s)):
                if not abs(r[f] - val) <= tol * abs(val):
                    o.v("wrong-shape", "%s: %s=%.10g, expected %.10g" % (where, f, r[f], val))
            if e.gap > 1e-3:
                for f, val in (("major", e.major), ("inter", e.inter), ("minor", e.minor)):
                    a = np.asarray(r[f])
                    if not axis_same(a, val, 100 * tol / min(1.0, e.gap * 10)):
                        o.v("wrong-shape", "%s: %s axis %s, expected +-%s" % (where, f, a, val))


def call(obj, sc):
    kc = halos.katz_config(sc["katz"])
    sel = list(sc["sel"])
    f = obj.getShapeCatLocal if sc["which"] == "local" else obj.getShapeCatGlobal
    return f(sel, katz_config=kc)


def make_object(cat, sc, work):
    from cosmic_profiles import DensShapeProfs
    return DensShapeProfs(cat.x, cat.m, [list(l) for l in cat.idx], cat.r200, cat.L, "035", work + "/viz", work + "/cat", MIN_NUMBER_PTCS=1, CENTER=sc["center"])


def run_scheds(o, sc, fn, judge, describe):
    """fn(): calls the code under test, returns result; judge(result, label): records violations.
    First sequentially, then under every schedule of the scenario."""
    omp.sequential()
    try:
        res = fn()
    except Exception as e:
        o.v("exception", "sequential run: " + exc_text(e))
        return None
    o.log("seq", *describe(res))
    judge(res, "one thread")
    if o.viol:
        return res
    for si, sd in enumerate(sc["scheds"]):
        if sd["policy"] == omp.RACE and "trace" not in sd:
            omp.configure({"policy": omp.LOG, "seed": sd["seed"] ^ 5, "threads": sd["threads"], "log_max": 10, "races": 1})
            try:
                judge(fn(), "schedule %d (probe)" % si)
            except Exception as e:
                o.v("exception", "schedule %d: %s" % (si, exc_text(e)))
            omp.flag_races()
            if o.viol:
                o.trace = [si, omp.trace()]
                return res
        omp.configure(sd)
        try:
            r = fn()
        except Exception as e:
            o.v("exception", "schedule %d: %s" % (si, exc_text(e)))
            r = None
        st = omp.stats()
        tr = omp.trace() if r is None else None
        if r is not None:
            o.log(si, st["hash"], *describe(r))
            judge(r, "schedule %d [%s, %d threads]" % (si, omp.NAMES[sd["policy"]], sd["threads"]))
        o.count("switches", st["switches"]); o.count("regions", st["regions"]); o.count("steps", st["steps"])
        o.count("fault:preemption", st["switches"]); o.count("fault:team smaller than requested", st["small_teams"])
        if sd["policy"] == omp.STARVE:
            o.count("fault:starved thread")
        o.count("policy:" + omp.NAMES[sd["policy"]])
        o.simtime += st["steps"]
        if st["switches"]:
            o.sigs.append("%x" % st["hash"])
        if o.viol:
            if not omp.overflow():
                o.trace = [si, omp.trace()]
            return res
    return res


def pin(sc, tr):
    si, recs = tr
    sd = dict(sc["scheds"][si])
    sd["trace"] = recs
    sd["policy"] = omp.LOG
    sc["scheds"] = [sd]
    return sc


def shrink_scheds(sc):
    if len(sc["scheds"]) > 1:
        for sd in sc["scheds"]:
            yield dict(sc, scheds=[sd])
    if sc["scheds"] and len(sc["scheds"]) == 1:
        yield dict(sc, scheds=[])
        sd = sc["scheds"][0]
        if "trace" in sd:
            tr = sd["trace"]
            for c in shrink_list(tr):
                yield dict(sc, scheds=[dict(sd, trace=c)])
        elif sd["threads"] > 2:
            yield dict(sc, scheds=[dict(sd, threads=2)])


def shrinks(sc):
    pinned = any("trace" in s for s in sc["scheds"])
    if not pinned or True:
        yield from shrink_scheds(sc)
    for spec, gone in halos.shrink_spec(sc["spec"]):
        sel = sc["sel"]
        if gone is not None:
            sel = [p - (p > gone) for p in sel if p != gone]
            if not sel:
                continue
        yield dict(sc, spec=spec, sel=sel)
    if len(sc["sel"]) > 1:
        for i in range(len(sc["sel"])):
            yield dict(sc, sel=sc["sel"][:i] + sc["sel"][i + 1:])
    k = sc["katz"]
    if len(k["R"]) > 1:
        for i in range(len(k["R"])):
            yield dict(sc, katz=dict(k, R=k["R"][:i] + k["R"][i + 1:]))


def run(sc, work):
    o = Obs()
    units()
    cat = halos.make(sc["spec"])
    exp = expected(cat, sc["sel"], sc)
    obj = make_object(cat, sc, work)
    run_scheds(o, sc, lambda: call(obj, sc), lambda r, l: compare(o, r, exp, sc, l), lambda r: [np.asarray(r)])
    o.sample = "%d objects of %s particles, box %g, %s %s shapes at %d radii, schedules %s" % (
        len(sc["spec"]["objs"]), [x["n"] for x in sc["spec"]["objs"]], sc["spec"]["L"], sc["center"], sc["which"], len(sc["katz"]["R"]),
        [(omp.NAMES[s["policy"]], s["threads"]) for s in sc["scheds"]])
    return o.out()
