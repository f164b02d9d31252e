"""C04: masses and centres of objects."""
import numpy as np
from sim import halos, models, omp
from sim.util import *
from checks import c01
from checks.c01 import make_object, pin, preload, run_scheds, units

ID, LEVEL = "C04", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of the OpenMP threads at every memory access, differential against a sequential reference model and against stored periodic images"
NOTE = ("Sampled schedules and catalogues; sequentially consistent memory; numpy internals are atomic steps; centres whose decision hinges on rounding are judged only for consistency between runs.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 4800, 12000
RULE = c01.RULE
REAL = c01.REAL + ["dens_profs_algos.calcMassesCenters, python_routines (centre finders, box handling)"]
STUB = c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS


def gen(rng, tier, i):
    spec = halos.gen_spec(rng, max_n=150 if tier == "quick" else 400, straddle=0.7, nobj=rng.choice([1, 2, 3, 5, 8, 12]))
    n = len(spec["objs"])
    sel = list(range(n))
    if rng.random() < 0.4:
        sel = rng.sample(sel, rng.randint(1, n))
    return {"spec": spec, "center": rng.choice(["mode", "com"]), "sel": sel, "image": rng.getrandbits(30) if rng.random() < 0.5 else 0,
            "scheds": [omp.gen_sched(rng, horizon=1500) for _ in range(3)]}


def run(sc, work):
    o = Obs()
    units()
    cat = halos.make(sc["spec"])
    exp = []
    for p in sc["sel"]:
        x, m = cat.x[cat.idx[p]], cat.m[cat.idx[p]]
        xu = models.unwrap(x, cat.L)
        ok = models.extent_ok(xu, cat.L)
        c, mar = models.center(xu, m, sc["center"], density=True)
        exp.append((ok, c, mar, m.sum()))
    if sc["image"] and cat.L:
        # some particles of objects that cross the boundary are stored contiguously instead of wrapped
        g = np.random.RandomState(sc["image"])
        for p in range(len(cat.idx)):
            x = cat.x[cat.idx[p]]
            xu = models.unwrap(x, cat.L)
            c = models.fold(xu.mean(axis=0), cat.L)
            xu = xu + (c - xu.mean(axis=0))
            if np.all(np.abs(xu - c) < 0.45 * cat.L):
                pick = g.uniform(size=len(x)) < g.choice([0.5, 1.0])
                cat.x[cat.idx[p]] = np.where(pick[:, None], xu, x)
        o.count("fault:periodic images stored")

    def judge(r, label):
        if r.shape != (len(exp),):
            o.v("wrong-centre", "%s: %d rows for %d objects" % (label, len(r), len(exp)))
            return
        for i, (ok, c, mar, m) in enumerate(exp):
            where = "%s: object %d (selected as no. %d)" % (label, sc["sel"][i], i)
            if not abs(r["mass"][i] - m) <= 1e-9 * m:
                o.v("wrong-mass", "%s: mass %.12g, its particles weigh %.12g" % (where, r["mass"][i], m))
            cc = r["centre"][i]
            if cat.L and not (np.all(cc >= -1e-9 * cat.L) and np.all(cc <= cat.L * (1 + 1e-9))):
                o.v("centre-outside-box", "%s: centre %s outside the box of %g" % (where, cc.tolist(), cat.L))
            if not ok or mar < 1e-7:
                o.count("not_judged")
                continue
            o.count("rows_judged")
            dd = cc - c
            if cat.L:
                dd = dd - cat.L * np.round(dd / cat.L)
            if not np.all(np.abs(dd) <= 1e-5):
                o.v("wrong-centre", "%s: centre %s, expected %s (period %g)" % (where, cc.tolist(), c.tolist(), cat.L))
    obj = make_object(cat, sc, work)
    run_scheds(o, sc, lambda: obj.getMassesCenters(list(sc["sel"])), judge, lambda r: [np.asarray(r)])
    o.sample = "%d objects of %s particles, box %g, %s centres%s, schedules %s" % (
        len(sc["spec"]["objs"]), [x["n"] for x in sc["spec"]["objs"]], sc["spec"]["L"], sc["center"], ", stored as other periodic images" if sc["image"] else "",
        [(omp.NAMES[s["policy"]], s["threads"]) for s in sc["scheds"]])
    return o.out()


def shrinks(sc):
    for c in c01.shrinks(dict(sc, katz={"R": []})):
        c.pop("katz", None)
        yield c
    if sc["image"]:
        yield dict(sc, image=0)
