"""Named operations of the public API on analysis objects, with canonical results.  Shared by the history checks (C14, C15, C18)."""
import copy, io, contextlib, os, random
import numpy as np
from sim import gadget_io, halos, omp, plots, pool

OUT = [["Mpc/h", "E+10Msun/h"], ["kpc", "Msun"], ["kpc/h", "Msun/h"], [1.5e24, 3.0e40], ["Mpc", "E+10Msun"]]
H0 = 0.6774
SHAPES = ["local", "global"]
VEL = ["vlocal", "vglobal"]
DATA = ["centers", "sph", "kernel", "ell", "fit", "conc"]
GETTERS = ["r200", "xyz", "idx"]
PLOTS = ["plotShape", "plotDens", "plotLocalT", "plotGlobalT", "plotGlobalEps", "plotLocalEps", "vizLocal", "vizGlobal"]
DUMPS = ["dumpLocal", "dumpGlobal"]
VDUMPS = ["dumpVLocal", "dumpVGlobal"]
GAD = VEL + ["vel", "header", "info"]
USES_SHAPES = {"local", "global", "vlocal", "vglobal", "ell", "plotShape", "plotLocalT", "plotGlobalT", "vizLocal", "vizGlobal"}
USES_POOL = {"fit", "conc"}


def internal(h=H0):
    return 3.085678e24 / h, 1.989e43 / h, 1e5


LEN = {"kpc": 3.085678e21, "Mpc": 3.085678e24}
MASS = {"Msun": 1.989e33, "E+10Msun": 1.989e43}


def cgs(u, h=H0):
    if not isinstance(u, str):
        return u
    b, _, hh = u.partition("/")
    v = LEN.get(b, MASS.get(b))
    return v / h if hh else v


def factors(out):
    """length and mass: internal -> out"""
    li, mi, _ = internal()
    return li / cgs(OUT[out][0]), mi / cgs(OUT[out][1])


def set_units(out):
    import cosmic_profiles as cp
    cp.updateInUnitSystem("Mpc/h", "E+10Msun/h", "km/s", H0)
    cp.updateOutUnitSystem(OUT[out][0], OUT[out][1], "km/s", H0)


def gen_cat(rng, with_vel, max_n=45, nobj=None):
    spec = halos.gen_spec(rng, nobj=nobj or rng.choice([2, 3, 3, 4, 5]), max_n=max_n, with_vel=with_vel, kinds=["ell"] * 10 + ["cusp", "offset", "axis0", "plane", "dup"])
    for ob in spec["objs"]:
        ob["n"] = max(ob["n"], 12)
    return spec


def sibling(spec, rng):
    """another catalogue of exactly the same sizes"""
    s = copy.deepcopy(spec)
    for ob in s["objs"]:
        ob["seed"] = rng.getrandbits(32)
        ob["r200"] *= rng.choice([0.9, 1.2])
        ob["q"], ob["s"] = rng.uniform(0.4, 0.95), rng.uniform(0.2, 0.9)
    return s


def gen_katz(rng):
    k = halos.gen_katz(rng)
    k.update(wall=rng.choice([20, 50]), min=rng.choice([3, 5]))
    k["R"] = sorted(set(k["R"] + [round(10 ** rng.uniform(-0.5, 0.05), 6) for _ in range(rng.choice([1, 2, 5]))]))
    if len(k["R"]) < 3:
        k["R"] = sorted(set(k["R"] + [0.4, 0.7, 1.0]))
    return k


def gen_op(rng, nobj_of, gad_of, kinds, nout=len(OUT), objs=None):
    k = rng.randrange(len(gad_of)) if objs is None else rng.choice(objs)
    n = nobj_of[k]
    name = rng.choice(kinds + ((VEL + ["vel"]) if gad_of[k] else []))
    sel = rng.sample(range(n), rng.randint(1, n))
    if rng.random() < 0.3:
        sel = sorted(sel)
    op = {"op": name, "obj": k, "sel": sel, "katz": rng.choice([0, 0, 1]), "out": rng.randrange(nout)}
    if name in ("sph", "kernel", "ell"):
        op["R"] = sorted(set(round(rng.uniform(0.1, 1.3), 4) for _ in range(rng.choice([3, 4, 6]))))
        while len(op["R"]) < 3:
            op["R"] = sorted(set(op["R"] + [round(rng.uniform(0.1, 1.3), 4)]))
    if name in ("fit", "conc", "plotDens"):
        op["prof"] = rng.choice(["nfw", "nfw", "hernquist", "einasto", "alpha_beta_gamma"]) if name != "plotDens" else rng.choice(["nfw", "nfw", "hernquist", "einasto"])
        op["noise"] = rng.getrandbits(31)
        op["nr"] = rng.choice([5, 8, 12])
        if rng.random() < 0.3:
            op["fix"] = rng.sample(["rho_s", "r_s"] + {"einasto": ["alpha"], "alpha_beta_gamma": ["alpha", "beta", "gamma"]}.get(op["prof"], []), rng.choice([1, 1, 2]))
    if name.startswith("plot"):
        op["nb"] = rng.randint(1, 3)
        op["hist"] = rng.choice([2, 5, 11])
        op["frac"] = rng.choice([0.2, 0.5, 1.0])
    return op


def user_profiles(op, nsel, nr=None):
    """profiles in output units, as a user would hold them"""
    g = np.random.RandomState(op["noise"])
    R = np.logspace(-1.3, 0, nr or op["nr"])
    fl, fm = factors(op["out"])
    P = []
    for p in op["sel"][:nsel]:
        x = R * (4 + p)
        P.append(10.0 ** (12 + p % 3) / (x * (1 + x) ** 2) * np.exp(0.05 * g.normal(size=len(R))))
    return np.array(P) * fm / fl ** 3 / 1e10, R


def method(op):
    """how to fit, parameters that are to stay fixed in output units"""
    fl, fm = factors(op["out"])
    v = {"rho_s": 3e2 * fm / fl ** 3, "r_s": 0.04 * fl, "alpha": 0.2 if op["prof"] == "einasto" else 1.0, "beta": 3.0, "gamma": 1.0}
    return dict({"profile": op["prof"]}, **{n: v[n] for n in op.get("fix", [])})


class World:
    """files and inputs of a scenario; objects are opened from it in whatever process needs them"""

    def __init__(self, sc, work):
        from checks import c02
        self.sc, self.work, self.cats, self.out = sc, work, [], work + "/out"
        set_units(0)
        for k, od in enumerate(sc["objs"]):
            spec = sc["cats"][od["cat"]]
            cat = halos.make(spec)
            if od["gad"]:
                d = "%s/in%d" % (work, k)
                os.makedirs(d)
                cat = c02.write(dict(sc, rdef=od.get("rdef", "Rvir")), cat, d)
                assert len(cat.idx) == len(spec["objs"])
            self.cats.append(cat)

    def open(self, k, tag=""):
        """-> (object, the inputs the user handed over)"""
        import cosmic_profiles as cp
        od, c = self.sc["objs"][k], self.cats[k]
        viz, cat = "%s/viz%d%s" % (self.out, k, tag), "%s/cat%d%s" % (self.out, k, tag)
        with quiet():
            if od["gad"]:
                d, here = "%s/in%d" % (self.work, k), os.getcwd()
                if od.get("rel"):                   # paths relative to where the user is at this moment
                    os.chdir(d)
                    d = "."
                try:
                    return cp.DensShapeProfsGadget(d + "/snap/snap_035", d + "/groups", self.sc["ptype"][0], "035", viz, cat, RVIR_OR_R200=od.get("rdef", "Rvir"), MIN_NUMBER_PTCS=5, CENTER=od["center"]), {}, viz, cat
                finally:
                    os.chdir(here)
            ins = {"xyz": c.x.copy(), "masses": c.m.copy(), "idx_cat": [list(l) for l in c.idx], "r200": np.array(c.r200, dtype=float)}
            return cp.DensShapeProfs(ins["xyz"], ins["masses"], ins["idx_cat"], ins["r200"], c.L, "035", viz, cat, MIN_NUMBER_PTCS=5, CENTER=od["center"]), ins, viz, cat


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def arguments(sc, op):
    """-> (method name, args, kwargs): fresh argument objects, the user's own"""
    name, sel = op["op"], list(op["sel"])
    kc = halos.katz_config(sc["katz"][op["katz"]])
    if name == "ell":
        kc = halos.katz_config(dict(sc["katz"][op["katz"]], R=[0.3, 0.6, 1.0, 1.4], min=5, shell=False))
    if name in ("local", "global", "vlocal", "vglobal"):
        return {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"}[name], [sel, kc], {}
    if name.startswith("dump"):
        return {"dumpLocal": "dumpShapeCatLocal", "dumpGlobal": "dumpShapeCatGlobal", "dumpVLocal": "dumpShapeVelCatLocal", "dumpVGlobal": "dumpShapeVelCatGlobal"}[name], [sel, kc], {}
    if name == "centers":
        return "getMassesCenters", [sel], {}
    if name in ("sph", "kernel", "ell"):
        kw = {"sph": dict(direct_binning=True, spherical=True), "ell": dict(direct_binning=True, spherical=False, katz_config=kc), "kernel": dict(direct_binning=False, spherical=True)}[name]
        return "estDensProfs", [np.array(op["R"]), sel], kw
    if name in ("fit", "conc"):
        P, R = user_profiles(op, len(sel))
        return {"fit": "fitDensProfs", "conc": "estConcentrations"}[name], [P, R, method(op), sel], {}
    if name == "plotDens":
        P, R = user_profiles(op, len(sel))
        Pf, Rf = user_profiles(dict(op, noise=op["noise"] ^ 1), len(sel), max(4, op["nr"] - 1))
        return "plotDensProfs", [P, R, Pf, Rf, method(op), op["nb"], sel], {}
    return {"r200": ("getR200", [], {}), "xyz": ("getXYZMasses", [], {}), "idx": ("getIdxCat", [], {}), "vel": ("getVelXYZ", [], {}), "header": ("getHeader", [], {}), "info": ("getObjInfo", [], {}),
            "plotShape": ("plotShapeProfs", [op.get("nb"), sel, kc], {}), "plotLocalT": ("plotLocalTHist", [op.get("hist"), op.get("frac"), sel, kc], {}),
            "plotGlobalT": ("plotGlobalTHist", [op.get("hist"), sel, kc], {}), "plotGlobalEps": ("plotGlobalEpsHist", [op.get("hist"), sel], {}),
            "plotLocalEps": ("plotLocalEpsHist", [op.get("frac"), op.get("hist"), sel], {}), "vizLocal": ("vizLocalShapes", [sel, kc], {}), "vizGlobal": ("vizGlobalShapes", [sel, kc], {})}[name]


def canon(r):
    """result -> plain data"""
    if isinstance(r, np.ndarray):
        if r.dtype.names:
            return {f: canon(r[f]) for f in r.dtype.names}
        return np.array(r, dtype=float) if r.dtype.kind in "biuf" else np.array(r)
    if isinstance(r, (tuple, list)):
        return [canon(x) for x in r]
    if isinstance(r, (float, int, np.generic)):
        return np.array(float(r))
    if hasattr(r, "__array__"):
        return canon(np.asarray(r))
    return r if isinstance(r, (str, dict, type(None))) else repr(type(r))


def read_dump(d):
    """folder -> {file: rows} (comment lines apart)"""
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        try:
            out[f] = np.loadtxt(os.path.join(d, f), ndmin=2)
        except Exception as e:
            out[f] = "unreadable: %s" % type(e).__name__
    return out


def call(obj, sc, op, args=None):
    m, a, kw = args or arguments(sc, op)
    with quiet():
        return getattr(obj, m)(*a, **kw)


def figures(viz, keep=()):
    """canonical form of what was saved since the last call"""
    return [{"file": os.path.relpath(f, os.path.abspath(viz)), "axes": c} for f, c in plots.take(keep)]


def perform(obj, viz, cat, sc, op, keep=()):
    """set the units, run it, canonical result"""
    set_units(op["out"])
    plots.take(keep)
    r = call(obj, sc, op)
    if op["op"].startswith("dump"):
        return read_dump(cat)
    if op["op"] in PLOTS:
        return figures(viz, keep)
    return canon(r)


def differ(a, b, rtol=1e-9, atol=1e-12):
    return plots.differ(a, b, rtol, atol)
