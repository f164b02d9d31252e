"""C11: unit-system histories."""
import copy, os
import numpy as np
from sim import halos, models, omp, pool
from sim.util import *
from checks import c01, c02, c03

ID, LEVEL = "C11", "exploration"
TECHNIQUE = ("deterministic simulation of call histories: seeded sequences of accepted and rejected unit changes, object creations and queries (with failing pool workers), "
             "every answer compared with a reference model that carries the physical catalogue in cgs and the units of the last accepted change")
NOTE = ("Sampled histories of up to 24 operations. Objects made before little_h itself changed are not judged afterwards (their h-scaled inputs are then ambiguous); "
        "fits are compared with the same minimisation done on the profile in internal units, unless rounding-sized changes move its result.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 3000, 8000
TIME_UNIT = "operations of the history"
RULE = ("One case = one seeded catalogue, fixed in cgs, and one history. Distinct: different histories (hash of the operations and of the units they leave); "
        "counted only if at least one query followed an accepted change.")
REAL = ["config unit functions, constructors and queries of DensShapeProfs and DensShapeProfsGadget, readgadget, read_fof, shape/density/fit code"]
STUB = ["process pool (seeded scheduling of forked workers)", "OpenMP runtime (one thread here)", "mpi4py: simulated communicator of one rank"]
ASSUMPTIONS = ["a changed little_h leaves the meaning of already supplied inputs open"]

H0 = 0.6774
LENGTHS = {"kpc": 3.085678e21, "Mpc": 3.085678e24, "Gpc": 3.085678e27, "pc": 3.085678e18}
MASSES = {"Msun": 1.989e33, "E+10Msun": 1.989e43}
BADL = ["Mpc/H", "mpc", "", "parsec", "km/s", "Msun", "kpc /h"]
BADM = ["msun", "Mpc", "E+11Msun", "10Msun/h", "kg"]
BADV = ["m/s", "km", "Mpc/h", "kms"]


def value(u, h):
    """cgs value of a unit as the user wrote it"""
    if isinstance(u, str):
        if u == "km/s":
            return 1e5
        base, _, hh = u.partition("/")
        v = LENGTHS.get(base, MASSES.get(base))
        return v / h if hh else v
    return u


def preload():
    pool.install()
    c01.preload()


def gen_unit(rng, which):
    if which == "L":
        return rng.choice(["kpc", "Mpc", "kpc/h", "Mpc/h", "Gpc", "Gpc/h", "pc", "pc/h", round(10 ** rng.uniform(20, 26), -10)])
    if which == "M":
        return rng.choice(["Msun", "Msun/h", "E+10Msun", "E+10Msun/h", float("%.6g" % 10 ** rng.uniform(32, 45))])
    return rng.choice(["km/s", "km/s", 1.0, 100.0, 1.7e5])


def gen_change(rng, h):
    op = {"op": rng.choice(["in", "out"]), "u": [gen_unit(rng, k) for k in "LMV"], "h": h}
    if rng.random() < 0.3:
        bad = rng.choice(["L", "M", "V", "L", "M", "V", "h0", "hs", "none"])
        if bad in "LMV":
            k = "LMV".index(bad)
            op["u"][k] = rng.choice([BADL, BADM, BADV][k])
            if rng.random() < 0.5:
                op["h"] = rng.choice([0.5, 0.9, 1.0])
        elif bad == "none":
            op["u"] = ["Mpc", "nonsense", 1.0]
        else:
            op["h"] = 0 if bad == "h0" else "x"
        op["bad"] = True
    return op


QUERIES = ["r200", "xyz", "centers", "local", "global", "sph", "kernel", "ell", "fit", "conc", "convert"]


def gen(rng, tier, i):
    gad = rng.random() < 0.5
    spec = halos.gen_spec(rng, nobj=rng.choice([1, 2, 2, 3]), max_n=60, with_vel=True, kinds=["ell"] * 7 + ["offset", "cusp", "axis0", "plane", "r200zero"])
    ops, nobj, h = [], 0, H0
    for _ in range(rng.choice([6, 10, 16, 24])):
        r = rng.random()
        if r < 0.35 or not ops:
            if rng.random() < 0.12:
                h = rng.choice([H0, 0.7, 1.0])
            ops.append(gen_change(rng, h))
        elif r < 0.5 or not nobj:
            ops.append({"op": "make", "gadget": gad and rng.random() < 0.8})
            nobj += 1
        else:
            k = rng.choice(QUERIES + (["vel", "vlocal", "vglobal"] if gad else []))
            n = len(spec["objs"])
            ops.append({"op": "query", "obj": rng.randrange(nobj), "kind": k, "sel": rng.sample(range(n), rng.randint(1, n)), "c": round(rng.uniform(3, 9), 3),
                        "prof": rng.choice(["nfw", "nfw", "hernquist", "einasto", "alpha_beta_gamma"]), "noise": rng.getrandbits(31)})
            if k in ("fit", "conc"):
                names = {"einasto": ["alpha"], "alpha_beta_gamma": ["alpha", "beta", "gamma"]}.get(ops[-1]["prof"], []) + ["r_s", "rho_s"]
                if rng.random() < 0.6:
                    ops[-1]["fix"] = rng.sample(names, rng.randint(1, len(names)))
    # an object, then a change, then a question: the heart of the matter
    return {"spec": spec, "center": rng.choice(["mode", "com"]), "ops": ops, "katz": dict(halos.gen_katz(rng), wall=50), "files": rng.choice([1, 2]),
            "ptype": rng.choice([["dm", 1], ["stars", 4], ["gas", 0]]), "time": rng.choice([1.0, 0.5]), "rdef": rng.choice(["Rvir", "R200"]), "lay": rng.getrandbits(32),
            "R": sorted(round(rng.uniform(0.1, 1.3), 4) for _ in range(4)), "pool": pool.gen(rng, 4, len(spec["objs"]), 0.25), "sched": omp.gen_sched(rng, horizon=40000)}


def internal(h):
    return 3.085678e24 / h, 1.989e43 / h, 1e5


class Thing:
    """an object of the history: what the model knows about it"""


def make_thing(sc, cgs, units, work, no, gadget):
    import cosmic_profiles as cp
    (L, M, V), h = units
    t = Thing()
    t.h, t.gadget = h, gadget
    li, mi, vi = internal(h)
    c = halos.Cat()
    c.x, c.m, c.v, c.L, c.idx, c.r200 = cgs.x / L, cgs.m / M, cgs.v / V, cgs.L / L, cgs.idx, cgs.r200 / L
    d = "%s/o%d" % (work, no)
    os.makedirs(d)
    if gadget:
        k = c02.write(sc, c, d)
        t.cat = halos.Cat()
        t.cat.x, t.cat.m, t.cat.v, t.cat.L, t.cat.idx = k.x * (L / li), k.m * (M / mi), k.v * (V / vi), k.L * (L / li), k.idx
        t.cat.r200 = np.float64(np.float32(np.float32(k.r200) * (L / li)))
        t.obj = c02.make_object(sc, d, 5)
        keep = [j for j, p in enumerate(k.idx)]
        assert len(keep) == len(cgs.idx)
    else:
        t.cat = halos.Cat()
        t.cat.x, t.cat.m, t.cat.v, t.cat.L, t.cat.idx, t.cat.r200 = c.x * (L / li), c.m * (M / mi), c.v * (V / vi), c.L * (L / li), c.idx, c.r200 * (L / li)
        t.obj = cp.DensShapeProfs(c.x, c.m, [list(l) for l in c.idx], c.r200, c.L, "035", d + "/viz", d + "/cat", MIN_NUMBER_PTCS=1, CENTER=sc["center"])
    return t


def profile(kind, R, c):
    x = R * c
    if kind == "einasto":
        return np.exp(-2 / 0.2 * (x ** 0.2 - 1))
    return 1 / (x * (1 + x) ** 3) if kind == "hernquist" else 1 / (x * (1 + x) ** 2)


def judge(o, what, got, want, rtol=5e-6, atol=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if not same_num(got, want, rtol, atol):
        k = ""
        if got.shape == want.shape and got.size:
            with np.errstate(all="ignore"):
                j = np.unravel_index(np.nanargmax(np.abs(got - want) / np.maximum(np.abs(want), 1e-300) * np.ones(got.shape)), got.shape) if got.ndim else ()
            k = ", e.g. %r instead of %r" % (float(got[j]), float(want[j]))
        o.v("wrong-units", "%s: does not describe the object in the output units in force%s" % (what, k))


def query(o, sc, t, op, out, w, where):
    """w: simulated world of the pool"""
    li, mi, vi = internal(t.h)
    L, M, V = out
    fl, fm, fv = li / L, mi / M, vi / V
    cat, sel, k = t.cat, list(op["sel"]), op["kind"]
    where = "%s %s(%s)" % (where, k, sel)
    kc = halos.katz_config(sc["katz"])
    if k == "r200":
        judge(o, where, t.obj.getR200(), cat.r200 * fl)
    elif k == "xyz":
        x, m = t.obj.getXYZMasses()
        judge(o, where + " positions", x, cat.x * fl)
        judge(o, where + " masses", m, cat.m * fm)
    elif k == "vel" and t.gadget:
        judge(o, where, t.obj.getVelXYZ(), cat.v * fv)
    elif k == "centers":
        r = t.obj.getMassesCenters(sel)
        for i, p in enumerate(sel):
            ids = np.array(cat.idx[p])
            judge(o, where + " mass", r["mass"][i], cat.m[ids].sum() * fm)
            xu = models.unwrap(cat.x[ids], cat.L)
            if not models.extent_ok(xu, cat.L):
                continue
            c, mar = models.center(xu, cat.m[ids], sc["center"], density=True)
            if mar < 1e-7:
                continue
            d = r["centre"][i] / fl - c
            if cat.L:
                d -= cat.L * np.round(d / cat.L)
            if np.abs(d).max() > 1e-6 * max(np.abs(xu).max(), 1):
                o.v("wrong-units", "%s centre: %s, expected %s modulo the box" % (where, r["centre"][i], c * fl))
    elif k in ("local", "global", "vlocal", "vglobal"):
        if k[0] == "v" and not t.gadget:
            return
        s = dict(sc, which=k.lstrip("v"), sel=sel, inexact=True)
        exp = c01.expected(cat, sel, s, vel=k[0] == "v")
        f = {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"}[k]
        r = getattr(t.obj, f)(sel, katz_config=kc).copy()
        r["d"] /= fl
        c01.compare(o, r, exp, s, where, vel=k[0] == "v")
    elif k in ("sph", "kernel", "ell"):
        s = dict(sc, kind=k, sel=sel, katz=dict(sc["katz"], R=[0.3, 0.6, 1.0, 1.4], min=5, shell=False))
        kc = halos.katz_config(s["katz"])
        shapes = None
        if k == "ell":
            shapes = t.obj.getShapeCatLocal(list(sel), katz_config=kc)
            shapes["d"] /= fl
        exp = c03.expected(o, cat, s, shapes)
        kw = {"sph": dict(direct_binning=True, spherical=True), "ell": dict(direct_binning=True, spherical=False, katz_config=kc), "kernel": dict(direct_binning=False, spherical=True)}[k]
        r = t.obj.estDensProfs(np.array(s["R"]), list(sel), **kw) / (mi / M / fl ** 3)
        c03.compare(o, r, exp, s, where)
    elif k in ("fit", "conc"):
        sel = [p for p in sel if cat.r200[p] > 0]
        if not sel:
            return
        R = np.logspace(-1.3, 0, 12)
        cs = [op["c"] * (1 + 0.1 * p) for p in sel]
        rho0 = [10.0 ** (p % 5) for p in sel]
        # densities of the objects in internal units (fits work on 1E+10 of them) and as the user holds them
        g = np.random.RandomState(op["noise"])
        prof_i = np.array([profile(op["prof"], R, c) * r0 for c, r0 in zip(cs, rho0)]) * np.exp(0.05 * g.normal(size=(len(sel), len(R))))
        f = mi / M / fl ** 3
        prof = prof_i * f
        want = []
        method = dict({"profile": op["prof"]}, **{x: {"alpha": 0.2 if op["prof"] == "einasto" else 1.0, "beta": 3.0, "gamma": 1.0, "r_s": 0.11, "rho_s": 2.5}[x] for x in op.get("fix", [])})
        for i, p in enumerate(sel):
            q, ok = models.fit_stable(R, method, prof_i[i], cat.r200[p], n=3)
            want.append(q if ok and (op["prof"] in ("nfw", "hernquist") or not {"r_s", "rho_s"} & set(method)) else None)
        # dimensionful parameters that stay fixed are handed over in output units
        handed = {x: v * {"r_s": fl, "rho_s": f}.get(x, 1.0) if x in ("r_s", "rho_s") else v for x, v in method.items()}
        nh = len(w.hits)
        try:
            if k == "fit":
                r = t.obj.fitDensProfs(prof, R, handed, sel)
            else:
                r = t.obj.estConcentrations(prof, R, handed, sel)
        except MemoryError:
            if len(w.hits) == nh:
                raise
            o.count("fault:pool worker"); return
        except OSError:
            if len(w.hits) == nh:
                raise
            o.count("fault:pool worker"); return
        for i, p in enumerate(sel):
            if want[i] is None:
                o.count("not_judged")
                for x in handed:
                    if k == "fit" and x != "profile" and r["is_conv"][i]:
                        judge(o, where + " fixed %s of object %d" % (x, p), r[x][i], handed[x], 1e-6)
            elif k == "fit":
                judge(o, where + " r_s of object %d" % p, r["r_s"][i], want[i][-1] * fl, 1e-4)
                judge(o, where + " rho_s of object %d" % p, r["rho_s"][i], want[i][0] * f, 1e-4)
                for x, y in zip(models._NAMES[op["prof"]][:-1], want[i][1:-1]):
                    judge(o, where + " %s of object %d" % (x, p), r[x][i], y, 1e-4)
                o.count("fits judged" + (" with fixed parameters" if op.get("fix") else ""))
            else:
                judge(o, where + " of object %d" % p, r[i], cat.r200[p] / want[i][-1], 1e-4)
    o.count("queries")


def conversions(o, ins, out, h, where):
    from cosmic_profiles.common import config as g
    li, mi, vi = internal(h)
    x = np.array([1.0, 2.5, -3.0])
    for f, want in ((g.LengthInternalToOut, li / out[0]), (g.MassInternalToOut, mi / out[1]), (g.VelInternalToOut, vi / out[2]),
                    (g.LengthInToInternal, ins[0] / li), (g.MassInToInternal, ins[1] / mi), (g.VelInToInternal, ins[2] / vi)):
        judge(o, "%s %s" % (where, f.__name__), f(x), x * want, 1e-6)
    if not same_num(g.getLMVInternal(), [li, mi, vi], 1e-12):
        o.v("wrong-units", "%s: internal units %s, expected %s" % (where, g.getLMVInternal(), (li, mi, vi)))
    for name, val, lab in zip(("length", "mass", "velocity"), out, g.LMVLabel()):
        try:
            v = value(lab, h) if not lab[:1].isdigit() else None
            if v is None:
                k = 8
                while not lab[:k].replace("e+", "e").replace("e-", "e").replace(".", "").replace("e", "").isdigit():
                    k -= 1
                v = float(lab[:k]) * {"kpc": 3.085678e21, "Msun": 1.989e33, "km/s": 1e5}[lab[k:]]
        except Exception:
            o.v("wrong-label", "%s: label %r names no %s unit" % (where, lab, name))
            continue
        if not abs(v - val) <= 6e-3 * val:
            o.v("wrong-label", "%s: label %r for a %s unit of %g" % (where, lab, name, val))


def run(sc, work):
    import cosmic_profiles as cp
    from cosmic_profiles.common import config as g
    o = Obs()
    omp.configure({"policy": omp.SEQ, "threads": 1})
    w = pool.start(sc["pool"])
    try:
        cat = halos.make(sc["spec"])
        li, mi, vi = internal(H0)
        cgs = halos.Cat()
        cgs.x, cgs.m, cgs.v, cgs.L, cgs.idx, cgs.r200 = cat.x * li, cat.m * mi, cat.v * vi, cat.L * li, cat.idx, cat.r200 * li
        cp.updateInUnitSystem("kpc", "E+10Msun", "km/s", H0)
        cp.updateOutUnitSystem("Mpc", "Msun", "km/s", H0)
        ins, out, h = [value("kpc", H0), 1.989e43, 1e5], [value("Mpc", H0), 1.989e33, 1e5], H0
        things, after = [], False
        for n, op in enumerate(sc["ops"]):
            where = "step %d" % n
            o.simtime += 1
            if op["op"] in ("in", "out"):
                f = cp.updateInUnitSystem if op["op"] == "in" else cp.updateOutUnitSystem
                try:
                    f(*op["u"], op["h"])
                    if op.get("bad"):
                        o.v("accepted", "%s: %s unit change %s with little_h %r was accepted" % (where, op["op"], op["u"], op["h"]))
                        break
                    h = op["h"]
                    u = [value(x, h) for x in op["u"]]
                    if op["op"] == "in":
                        ins = u
                    else:
                        out = u
                    o.count("accepted"); after = True
                except Exception as e:
                    if not op.get("bad"):
                        o.v("refused", "%s: %s unit change %s with little_h %r: %s" % (where, op["op"], op["u"], op["h"], exc_text(e)))
                        break
                    o.count("fault:rejected unit change")
            elif op["op"] == "make":
                things.append(make_thing(sc, cgs, (ins, h), work, len(things), op["gadget"]))
            else:
                if op["kind"] == "convert":
                    conversions(o, ins, out, h, where)
                elif op["obj"] < len(things) and things[op["obj"]].h == h:
                    query(o, sc, things[op["obj"]], op, out, w, where)
                    if after:
                        o.sigs.append(h_(sc, n))
                else:
                    o.count("not_judged")
            got = [g.InUnitLength_in_cm, g.InUnitMass_in_g, g.InUnitVelocity_in_cm_per_s, g.OutUnitLength_in_cm, g.OutUnitMass_in_g, g.OutUnitVelocity_in_cm_per_s, g.LittleH]
            if any(isinstance(x, str) for x in got) or not same_num(got, ins + out + [h], 1e-12):
                o.v("units-in-force", "%s (%s%s): units in force %s, the last accepted change left %s" % (where, op["op"], " rejected" if op.get("bad") else "", got, ins + out + [h]))
            if o.viol:
                break
            o.log(n, got)
        o.count("fault:pool worker raised", len(w.hits))
        o.sample = "%d objects, ops %s" % (len(sc["spec"]["objs"]), [op["op"] + (":" + op["kind"] if "kind" in op else "!" if op.get("bad") else "") for op in sc["ops"]])
    finally:
        pool.stop()
        c01.units()
    return o.out()


def h_(sc, n):
    return h(sc["ops"][: n + 1], sc["spec"]["shuffle"])


def shrinks(sc):
    ops = sc["ops"]
    for c in shrink_list(ops, 1):
        # object numbers shift with the removed creations
        kept = [op for op in c]
        if sum(op["op"] == "make" for op in kept) == sum(op["op"] == "make" for op in ops):
            yield dict(sc, ops=kept)
    for i, op in enumerate(ops):
        if op["op"] == "make":
            no = sum(q["op"] == "make" for q in ops[:i])
            new = []
            for j, q in enumerate(ops):
                if j == i or (q["op"] == "query" and q["obj"] == no):
                    continue
                new.append(dict(q, obj=q["obj"] - (q["obj"] > no)) if q["op"] == "query" else q)
            yield dict(sc, ops=new)
    for spec, gone in halos.shrink_spec(sc["spec"]):
        new = []
        for q in ops:
            if q["op"] == "query" and gone is not None:
                s = [p - (p > gone) for p in q["sel"] if p != gone]
                if not s:
                    continue
                q = dict(q, sel=s)
            new.append(q)
        yield dict(sc, spec=spec, ops=new)
    if sc["pool"]["faults"]:
        yield dict(sc, pool=dict(sc["pool"], faults=[]))
    for i, q in enumerate(ops):
        if q["op"] == "query" and len(q["sel"]) > 1:
            for p in q["sel"]:
                yield dict(sc, ops=ops[:i] + [dict(q, sel=[p])] + ops[i + 1:])


def pin(sc, trace):
    return sc
