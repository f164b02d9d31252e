"""C03: density profiles (spherical shells, ellipsoidal shells, kernel)."""
import numpy as np
from sim import halos, models, omp
from sim.util import *
from checks import c01
from checks.c01 import make_object, pin, preload, run_scheds, shrink_scheds, units

ID, LEVEL = "C03", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of the OpenMP threads at every memory access, differential against a sequential reference model plus mass conservation"
NOTE = ("Sampled schedules and catalogues; sequentially consistent memory; numpy internals are atomic steps; shells with a particle within rounding of an edge are judged through mass conservation only.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 3600, 12000
RULE = c01.RULE
REAL = c01.REAL + ["dens_profs_algos"]
STUB = c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS


def gen(rng, tier, i):
    spec = halos.gen_spec(rng, max_n=120 if tier == "quick" else 300, kinds=["ell"] * 8 + ["tiny", "cusp", "offset", "r200zero"] + halos.EXACT)
    n = len(spec["objs"])
    sel = list(range(n))
    if rng.random() < 0.3:
        sel = rng.sample(sel, rng.randint(1, n))
    kind = rng.choice(["sph", "sph", "ell", "kernel"])
    nr = rng.choice([3, 4, 6, 9]) if kind == "ell" else rng.choice([1, 2, 3, 5, 8])
    lo, hi = rng.choice([(0.05, 1.0), (0.2, 0.9), (0.01, 2.0)])
    R = sorted(set([round(rng.uniform(lo, hi), 6) for _ in range(nr - 1)] + [hi]))
    katz = halos.gen_katz(rng)
    if kind == "ell":
        katz = dict(katz, R=sorted([0.3, 0.6, 1.0, 1.4][: rng.choice([2, 3, 4])]), min=5, shell=False)
        while len(R) < 3:
            R = sorted(set(R + [round(rng.uniform(lo, hi), 6)]))
    return {"spec": spec, "kind": kind, "R": R, "katz": katz, "center": rng.choice(["mode", "com"]), "sel": sel,
            "scheds": [omp.gen_sched(rng, horizon=15000) for _ in range(3)]}


def expected(o, cat, sc, shapes):
    R = np.array(sc["R"])
    exp = []
    for i, p in enumerate(sc["sel"]):
        ids = np.array(cat.idx[p])
        x, m = cat.x[ids], cat.m[ids]
        xu = models.unwrap(x, cat.L)
        if not models.extent_ok(xu, cat.L):
            exp.append(None)
            continue
        c, mar = models.center(xu, m, sc["center"], density=True)
        r200 = cat.r200[p]
        if r200 == 0.0:  # no radius to bin by: no density, no ellipsoids
            exp.append((np.full(len(R), np.nan if sc["kind"] == "ell" else 0.0), np.inf, 0.0, np.zeros(len(R)), 0.0, 1.0))
            o.count("rows_without_r200")
            continue
        scale = m.sum() / r200 ** 3
        if sc["kind"] == "sph":
            e, mm = models.dens_sph(xu, m, c, r200, R)
        elif sc["kind"] == "kernel":
            e, err = models.dens_kernel(xu, m, c, r200, R)
            mm = (np.linalg.norm(xu - c, axis=1) / r200).min()
            scale = scale + 1e10 * err
        else:
            s = shapes[i]
            e, mm = models.dens_ell(xu, m, c, r200, R, s["d"], s["d"] * s["q"], s["d"] * s["s"], s["major"], s["inter"], s["minor"])
            if np.any(s["s"] < 1e-3):
                mm = 0.0  # vanishingly flat (all particles in a plane): rounding decides what lies inside
        ed = models.sph_edges(R) * np.float64(np.float32(r200))
        r = np.linalg.norm(xu - c, axis=1)
        inside = m[(r < ed[-1]) & (r >= ed[0])].sum()
        m2 = min(abs(r - ed[-1]).min() / ed[-1], abs(r / ed[0] - 1).min())
        exp.append((e, min(mar, mm), inside, 4 / 3 * np.pi * np.diff(ed ** 3), min(m2, mar), scale))
    return exp


def compare(o, got, exp, sc, label):
    got = np.asarray(got)
    if got.shape != (len(exp), len(sc["R"])):
        o.v("wrong-density", "%s: array of shape %s for %d objects and %d radii" % (label, got.shape, len(exp), len(sc["R"])))
        return
    for i, e in enumerate(exp):
        if e is None:
            o.count("not_judged")
            continue
        val, mar, inside, vols, m2, scale = e
        where = "%s: %s density of object %d (selected as no. %d)" % (label, sc["kind"], sc["sel"][i], i)
        if mar > 1e-7:
            o.count("rows_judged")
            if not same_num(got[i], val, rtol=5e-6, atol=1e-10 * scale):
                o.v("wrong-density", "%s: %s expected %s" % (where, got[i].tolist(), val.tolist()))
        else:
            o.count("not_judged")
        if sc["kind"] == "sph" and m2 > 1e-7:
            o.count("masses_judged")
            tot = float((got[i] * vols).sum())
            if not abs(tot - inside) <= 1e-5 * abs(inside) + 1e-12:
                o.v("mass-not-conserved", "%s: shells hold %.9g, particles inside the last edge weigh %.9g" % (where, tot, inside))


def run(sc, work):
    o = Obs()
    units()
    cat = halos.make(sc["spec"])
    obj = make_object(cat, sc, work)
    kc = halos.katz_config(sc["katz"])
    R, sel = np.array(sc["R"]), list(sc["sel"])
    omp.sequential()
    shapes = obj.getShapeCatLocal(list(sel), katz_config=kc) if sc["kind"] == "ell" else None
    exp = expected(o, cat, sc, shapes)
    kw = {"sph": dict(direct_binning=True, spherical=True), "ell": dict(direct_binning=True, spherical=False, katz_config=kc), "kernel": dict(direct_binning=False, spherical=True)}[sc["kind"]]
    run_scheds(o, sc, lambda: obj.estDensProfs(R.copy(), list(sel), **kw), lambda r, l: compare(o, r, exp, sc, l), lambda r: [np.asarray(r)])
    o.sample = "%d objects of %s particles, box %g, %s %s densities at %d radii, schedules %s" % (
        len(sc["spec"]["objs"]), [x["n"] for x in sc["spec"]["objs"]], sc["spec"]["L"], sc["center"], sc["kind"], len(R), [(omp.NAMES[s["policy"]], s["threads"]) for s in sc["scheds"]])
    return o.out()


def shrinks(sc):
    for c in c01.shrinks(sc):
        if len(c["katz"]["R"]) >= 2 or sc["kind"] != "ell":
            yield c
    if len(sc["R"]) > (3 if sc["kind"] == "ell" else 1):
        for i in range(len(sc["R"])):
            yield dict(sc, R=sc["R"][:i] + sc["R"][i + 1:])
