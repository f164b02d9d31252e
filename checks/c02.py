"""C02: velocity-dispersion shape catalogues (Gadget/HDF5 objects only)."""
import random
import numpy as np
from sim import gadget_io, halos, models, omp
from sim.util import *
from checks import c01
from checks.c01 import compare, expected, pin, preload, run_scheds, shrinks, units

ID, LEVEL = "C02", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of the OpenMP threads at every memory access, differential against a sequential reference model"
NOTE = ("Sampled schedules and sampled Gadget snapshots written by the harness; sequentially consistent memory; numpy/LAPACK internals are atomic steps; rows whose value hinges on rounding are not judged.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 2400, 6000
RULE = c01.RULE
REAL = c01.REAL + ["readgadget, read_fof, gen_catalogues on HDF5 files written by the harness"]
STUB = c01.STUB
ASSUMPTIONS = c01.ASSUMPTIONS


def gen(rng, tier, i):
    spec = halos.gen_spec(rng, max_n=90 if tier == "quick" else 250, with_vel=True)
    n = len(spec["objs"])
    sel = list(range(n))
    if rng.random() < 0.3:
        sel = rng.sample(sel, rng.randint(1, n))
    return {"spec": spec, "katz": halos.gen_katz(rng), "center": rng.choice(["mode", "com"]), "which": rng.choice(["local", "global"]), "sel": sel,
            "files": rng.choice([1, 1, 2, 3]), "ptype": rng.choice([["dm", 1], ["dm", 1], ["stars", 4], ["gas", 0]]), "time": rng.choice([1.0, 0.5]),
            "rdef": rng.choice(["Rvir", "R200"]), "lay": rng.getrandbits(32), "scheds": [omp.gen_sched(rng, horizon=40000) for _ in range(3)]}


def write(sc, cat, work):
    """files for the catalogue; returns the catalogue as the files describe it"""
    rng = random.Random(sc["lay"])
    pt = sc["ptype"][1]
    order, groups, exp = gadget_io.layout(cat, rng, pt, 5)
    x, m, v = cat.x[order], cat.m[order], cat.v[order]
    nf = sc["files"]
    import os
    os.makedirs(work + "/snap")
    gadget_io.write_snapshot(work + "/snap/snap_035", {pt: dict(x=x, v=v / np.sqrt(sc["time"]), m=m, id=np.arange(len(x)), counts=gadget_io.split_counts(len(x), nf, rng)),
                                                       (1 if pt != 1 else 4): dict(x=np.ones((3, 3)), v=np.ones((3, 3)), m=np.ones(3), id=np.arange(3), counts=gadget_io.split_counts(3, nf, rng))},
                             cat.L, nf, time=sc["time"])
    ns = sum(len(g["subs"]) for g in groups)
    k = rng.choice([1, 1, 2, 4])
    gadget_io.write_fof(work + "/groups", groups, gadget_io.split_counts(len(groups), k, rng), gadget_io.split_counts(ns, k, rng))
    c = halos.Cat()
    c.x, c.m, c.v, c.L = x, m, v, cat.L
    c.idx = [l for _, l in exp]
    key = "rvir" if sc["rdef"] == "Rvir" else "r200"
    c.r200 = np.float64(np.float32([np.float32(cat.r200[p] * (1.0 if key == "rvir" else 0.9)) for p, _ in exp]))
    return c


def make_object(sc, work, minp=1):
    from cosmic_profiles import DensShapeProfsGadget
    snap = work + "/snap/snap_035"
    return DensShapeProfsGadget(snap, work + "/groups", sc["ptype"][0], "035", work + "/viz", work + "/cat", RVIR_OR_R200=sc["rdef"], MIN_NUMBER_PTCS=minp, CENTER=sc["center"])


def run(sc, work):
    o = Obs()
    units()
    cat = write(sc, halos.make(sc["spec"]), work)
    exp = expected(cat, sc["sel"], sc, vel=True)
    obj = make_object(sc, work, 5)
    kc = halos.katz_config(sc["katz"])
    f = obj.getShapeCatVelLocal if sc["which"] == "local" else obj.getShapeCatVelGlobal
    run_scheds(o, sc, lambda: f(list(sc["sel"]), katz_config=kc), lambda r, l: compare(o, r, exp, sc, l, vel=True), lambda r: [np.asarray(r)])
    o.sample = "%d objects of %s particles of type %s in %d files, box %g, %s %s velocity shapes, schedules %s" % (
        len(sc["spec"]["objs"]), [x["n"] for x in sc["spec"]["objs"]], sc["ptype"][0], sc["files"], sc["spec"]["L"], sc["center"], sc["which"],
        [(omp.NAMES[s["policy"]], s["threads"]) for s in sc["scheds"]])
    return o.out()
