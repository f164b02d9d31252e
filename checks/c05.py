"""C05: FoF/SH catalogue reading by a simulated MPI job."""
import copy, os, sys
import numpy as np
from sim import gadget_io, mpi
from sim.util import *

ID, LEVEL = "C05", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of a simulated MPI job (forked ranks, one runs at a time, messages delivered by a controller) with I/O errors, crashes, damaged files and memory pressure injected per rank"
NOTE = ("Sampled rank counts, file layouts, schedules and faults. The communicator is a model of MPI (collectives in program order, buffered or synchronising small messages); after a fault on one rank the others may "
        "wait or stop but must not return a wrong catalogue. Messages are not lost: MPI is reliable.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 1400, 12000
TIME_UNIT = "scheduler steps (rank switches at communication and I/O points)"
RULE = ("One case = one seeded directory of group files (1-6 ranks, 0-12 files, uneven, empty or missing groups), read in a sequence of requests by one seeded schedule of the ranks, with or without faults. "
        "Non-trivial: at least two ranks or one fault; distinct: by hash of (schedule, message order, fault points).")
REAL = ["read_fof.getFoFSHData, caching, config, DensShapeProfsGadget construction (real code in every rank process)", "HDF5 files on disk, h5py"]
STUB = ["mpi4py (simulated communicator)", "glob/listdir order", "psutil.virtual_memory", "h5py open/read fault points"]
ASSUMPTIONS = ["MPI delivers messages reliably and in order", "all ranks make the same sequence of requests"]
LEN = {"kpc": 1e-3, "Mpc": 1.0, "Gpc": 1e3, "pc": 1e-6}
H = 0.6774


def preload():
    import numpy, h5py, scipy, scipy.linalg, scipy.optimize, scipy.interpolate, scipy.spatial, scipy.integrate, scipy.special, psutil, glob  # noqa
    import matplotlib, matplotlib.pyplot, pathos.multiprocessing  # noqa
    try:
        import sklearn.neighbors  # noqa
    except ImportError:
        pass
    assert "cosmic_profiles" not in sys.modules and "mpi4py" not in sys.modules


def gen_dir(rng, tier):
    nf = rng.choice([1, 1, 2, 3, 4, 5, 7, 12]) if rng.random() > 0.04 else 0
    groups = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 15]) if nf else 0):
        g = {"len": [rng.randint(0, 99) for _ in range(6)], "rvir": round(rng.uniform(0.1, 900), 5), "r200": round(rng.uniform(0.1, 900), 5),
             "subs": [[rng.randint(0, 50) for _ in range(6)] for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))]}
        groups.append(g)
    ns = sum(len(g["subs"]) for g in groups)
    return {"groups": groups, "cg": gadget_io.split_counts(len(groups), nf, rng) if nf else [], "cs": gadget_io.split_counts(ns, nf, rng) if nf else [],
            "first": rng.choice([0, 0, 0, 8, 97]), "drop": rng.random() < 0.5, "name": rng.choice(["groups", "groups_035", "z0.25/g7", "a.b1"]), "prefix": rng.choice(["fof_subhalo_tab_035", "fof_subhalo_tab_7", "groups_012"])}


def gen_unit(rng):
    return [rng.choice(["kpc/h", "Mpc/h", "kpc", "Mpc", "Gpc/h", "pc"]), rng.choice([H, H, H, 0.7])]


def gen(rng, tier, i):
    size = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] + ([8] if tier == "thorough" else []))
    dirs = [gen_dir(rng, tier) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.75 or not ops:
            ops.append(["read", rng.randrange(len(dirs)), rng.choice(["Rvir", "R200"]), rng.choice([0, 1, 4])])
        elif r < 0.85:
            ops.append(["units"] + gen_unit(rng))
        else:
            ops.append(["again", rng.randrange(len(ops))])
    if rng.random() < 0.15:
        ops.append(["object", rng.randrange(len(dirs)), rng.choice(["Rvir", "R200"]), rng.choice([0, 1, 4]), rng.choice([0, 1, 10])])
    faults = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(["eio", "eio", "enoent", "emfile", "crash", "truncate"])
            if k == "truncate":
                d = rng.randrange(len(dirs))
                if dirs[d]["cg"]:
                    faults.append({"kind": "truncate", "dir": d, "file": rng.randrange(len(dirs[d]["cg"])), "frac": rng.choice([0.0, 0.05, 0.3, 0.6, 0.9])})
            else:
                faults.append({"kind": k, "rank": rng.randrange(size), "at": rng.choice([rng.randrange(4), rng.randrange(30), rng.randrange(120)])})
    # available memory in GB over the calls, per rank: None = plenty
    mem = [[rng.choice([0.5, 1.0, 16.0]) for _ in range(4)] if rng.random() < 0.5 else [16.0] for _ in range(size)] if rng.random() < 0.3 else None
    return {"size": size, "dirs": dirs, "ops": ops, "unit": gen_unit(rng), "faults": faults, "mem": mem, "list": rng.getrandbits(32),
            "sched": {"seed": rng.getrandbits(32), "policy": rng.choice(["random", "random", "prio", "starve"]), "eager": rng.choice([0, 1])}}


def l_internal_over(unit):
    name, h = unit
    base = LEN[name.split("/")[0]] / (h if name.endswith("/h") else 1.0)
    return base / (1.0 / h)


def model(sc, op, unit):
    _, d, rdef, pt = op[:4]
    gs = sc["dirs"][d]["groups"]
    nb = [len(g["subs"]) for g in gs]
    sh = [s[pt] for g in gs for s in g["subs"]]
    fof = [g["len"][pt] for g in gs]
    r = np.array([np.float32(g["rvir" if rdef == "Rvir" else "r200"]) for g in gs], dtype=np.float64) * l_internal_over(unit)
    return nb, sh, fof, r


def expand(sc):
    """ops with the unit in force; 'again' resolved"""
    out, unit = [], sc["unit"]
    for op in sc["ops"]:
        while op[0] == "again":
            op = sc["ops"][op[1]]
        if op[0] == "units":
            unit = op[1:]
        out.append((op, unit))
    return out


def body_factory(sc, work):
    steps = expand(sc)

    def body(job):
        import glob, random
        import h5py, psutil
        rng = random.Random("%d/%d" % (sc["list"], job.rank))

        def shuffled(f):
            def g(*a, **k):
                l = sorted(f(*a, **k))
                rng.shuffle(l)
                return l
            return g
        glob.glob, os.listdir, real_scan = shuffled(glob.glob), shuffled(os.listdir), os.scandir

        class Scan:
            def __init__(self, *a):
                with real_scan(*a) as it:
                    self.l = sorted(it, key=lambda e: e.name)
                rng.shuffle(self.l)
                self.l = iter(self.l)

            def __iter__(self):
                return self.l

            def __next__(self):
                return next(self.l)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
            close = __exit__
        os.scandir = Scan
        if sc["mem"]:
            seq, n = sc["mem"][job.rank], [0]

            def vm():
                n[0] += 1
                av = seq[(n[0] - 1) % len(seq)]
                return type("svmem", (), {"available": int(av * 1024 ** 3), "total": 32 * 1024 ** 3, "percent": 50.0, "used": 0, "free": int(av * 1024 ** 3)})()
            psutil.virtual_memory = vm
        Real = h5py.File

        class File(Real):
            def __init__(self, name, *a, **k):
                job.point("open " + os.path.basename(str(name)))
                Real.__init__(self, name, *a, **k)

            def __getitem__(self, k):
                job.point("read")
                return Real.__getitem__(self, k)
        h5py.File = File
        import cosmic_profiles as cp
        assert cp.__file__.startswith(os.environ["SIM_BUILD"]), cp.__file__
        from cosmic_profiles.gadget.read_fof import getFoFSHData
        cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", sc["unit"][1])
        cp.updateInUnitSystem(sc["unit"][0], "E+10Msun/h", "km/s", sc["unit"][1])
        res = []
        for op, unit in steps:
            if op[0] == "units":
                cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", unit[1])
                cp.updateInUnitSystem(unit[0], "E+10Msun/h", "km/s", unit[1])
                res.append(None)
                continue
            dest = os.path.join(work, "d%d" % op[1], sc["dirs"][op[1]]["name"])
            try:
                if op[0] == "read":
                    res.append(("ok", [np.array(x) for x in getFoFSHData(dest, op[2], op[3])]))
                else:
                    obj = cp.DensShapeProfsGadget(os.path.join(work, "snap"), dest, {0: "gas", 1: "dm", 4: "stars"}[op[3]], "035", work, work, RVIR_OR_R200=op[2], MIN_NUMBER_PTCS=op[4])
                    a = obj.getIdxCat()
                    b = obj.getR200()
                    res.append(("ok", [None if y is None else np.array(y) for y in (a[0], a[1], b)]))
            except ValueError as e:
                res.append(("refused", str(e)))
        return res
    return body


def run(sc, work):
    o = Obs()
    for d, s in enumerate(sc["dirs"]):
        dest = os.path.join(work, "d%d" % d, s["name"])
        os.makedirs(dest)
        names = gadget_io.write_fof(dest, s["groups"], s["cg"], s["cs"], prefix=s["prefix"], first=s["first"], drop_empty=s["drop"])
        for f in sc["faults"]:
            if f["kind"] == "truncate" and f["dir"] == d:
                fn = names[f["file"]]
                os.truncate(fn, int(os.path.getsize(fn) * f["frac"]))
    nmax = max([sum(g["len"][1] for g in s["groups"]) for s in sc["dirs"]] + [1])
    if any(op[0] == "object" for op in sc["ops"]):
        x = np.arange(3 * 4, dtype=float).reshape(4, 3)
        gadget_io.write_snapshot(os.path.join(work, "snap"), {p: dict(x=x, v=x, m=np.ones(4), id=np.arange(4), counts=[4]) for p in (0, 1, 4)}, 100.0, 1)
    rankfaults = [f for f in sc["faults"] if f["kind"] != "truncate"]
    res = mpi.run(sc["size"], body_factory(sc, work), sc["sched"], rankfaults)
    hit = list(res.faults) + (["truncate"] if len(rankfaults) < len(sc["faults"]) else [])
    for k in hit:
        o.count("fault:" + k)
    if sc["mem"]:
        o.count("fault:memory pressure")
    o.count("steps", res.steps)
    o.count("policy:" + sc["sched"]["policy"])
    o.simtime = res.steps
    o.log(res.hash, [r[0] for r in res.ranks])
    o.trace = res.trace
    if sc["size"] > 1 or hit:
        o.sigs.append(res.hash)
    steps = expand(sc)
    if res.mismatch and not hit:
        o.v("mismatched-collectives", res.mismatch)
    for r, out in enumerate(res.ranks):
        if out is None:
            continue
        if out[0] == "hung" and not hit:
            o.v("hang", "rank %d of %d waits forever without any fault (%s)" % (r, sc["size"], [x[0] for x in res.ranks]))
        elif out[0] == "exc" and not hit:
            o.v("exception", "rank %d: %s" % (r, out[1]))
        elif out[0] == "dead" and not hit:
            o.v("died", "rank %d died without any fault" % r)
        elif out[0] == "done":
            o.count("ranks_judged")
            judge(o, sc, steps, r, out[1])
    o.log([(x[0], [None if s is None else (s[0], [h(y) if y is not None else None for y in s[1]] if s[0] == "ok" else "") for s in x[1]] if x[0] == "done" else "") for x in res.ranks if x])
    o.sample = "%d ranks read %s files with %s groups, requests %s, faults %s, %s schedule of %d steps" % (
        sc["size"], [len(s["cg"]) for s in sc["dirs"]], [len(s["groups"]) for s in sc["dirs"]], [x[0] for x in sc["ops"]], hit or "none", sc["sched"]["policy"], res.steps)
    return o.out()


def judge(o, sc, steps, r, results):
    for k, ((op, unit), got) in enumerate(zip(steps, results)):
        if got is None:
            continue
        where = "rank %d of %d, request %d (%s of %d files)" % (r, sc["size"], k, op[0], len(sc["dirs"][op[1]]["cg"]))
        nb, sh, fof, rad = model(sc, op, unit)
        damaged = any(f["kind"] == "truncate" and f["dir"] == op[1] for f in sc["faults"])
        if got[0] == "refused":
            empty = not sc["dirs"][op[1]]["cg"] or (op[0] == "object" and not nb)
            if not empty and not damaged:
                o.v("refused", "%s: refused: %s" % (where, got[1]))
            continue
        if not sc["dirs"][op[1]]["cg"]:
            o.v("not-refused", "%s: an answer from a directory without files" % where)
            continue
        if op[0] == "read":
            for name, a, b in zip(("subhalo counts", "subhalo sizes", "group sizes"), got[1][:3], (nb, sh, fof)):
                if a.tolist() != b:
                    o.v("wrong-catalogue", "%s: %s %s, the files hold %s" % (where, name, a.tolist()[:40], b[:40]))
            a = got[1][3]
            if a.shape != rad.shape or not same_num(a, rad, rtol=1e-6):
                o.v("wrong-catalogue", "%s: radii %s, the files hold %s in internal units" % (where, a.tolist()[:20], rad.tolist()[:20]))
        else:
            if r:
                if any(x is not None for x in got[1]):
                    o.v("wrong-catalogue", "%s: a rank other than 0 got an object catalogue" % where)
                continue
            idx, sizes, rr, start, subs = [], [], [], 0, 0
            for g, R in zip(sc["dirs"][op[1]]["groups"], rad):
                pt = op[3]
                if g["subs"] and g["subs"][0][pt] >= op[4]:
                    n = g["subs"][0][pt]
                    idx += range(start, start + n); sizes.append(n); rr.append(R)
                start += g["len"][pt]
            h_ = unit[1]
            if got[1][0].tolist() != idx or got[1][1].tolist() != sizes or not same_num(got[1][2], np.array(rr), rtol=1e-6):
                o.v("wrong-catalogue", "%s: objects %s, the files define %s" % (where, [x.tolist()[:20] for x in got[1]], [idx[:20], sizes, rr]))


def pin(sc, trace):
    sc["sched"] = dict(sc["sched"], trace=trace)
    return sc


def shrinks(sc):
    for i in range(len(sc["faults"])):
        yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:])
    if sc["mem"]:
        yield dict(sc, mem=None)
    for i in range(len(sc["ops"])):
        ops = [list(x) for j, x in enumerate(sc["ops"]) if j != i]
        if any(x[0] == "again" for x in ops):
            ops = [list(x[0]) if x[0][0] != "units" else ["units"] + x[1] for j, x in enumerate(expand(sc)) if j != i]
        if ops:
            yield dict(sc, ops=ops)
    tr = sc["sched"].get("trace")
    if tr is None:
        if sc["size"] > 1:
            n = sc["size"] - 1
            yield dict(sc, size=n, faults=[f for f in sc["faults"] if f.get("rank", 0) < n], mem=sc["mem"][:n] if sc["mem"] else None)
        if sc["sched"]["eager"]:
            yield dict(sc, sched=dict(sc["sched"], eager=0))
    else:
        for k in (0, len(tr) // 4, len(tr) // 2, 3 * len(tr) // 4):
            if k < len(tr):
                yield dict(sc, sched=dict(sc["sched"], trace=tr[:k]))
        for i in range(len(tr) - 1):
            if tr[i] > tr[i + 1]:
                yield dict(sc, sched=dict(sc["sched"], trace=tr[:i] + [tr[i + 1], tr[i]] + tr[i + 2:]))
    for d, s in enumerate(sc["dirs"]):
        for i in range(len(s["groups"])):
            c = copy.deepcopy(sc["dirs"])
            g = c[d]["groups"].pop(i)
            for key, n in (("cg", 1), ("cs", len(g["subs"]))):
                for j in range(len(c[d][key]) - 1, -1, -1):
                    t = min(n, c[d][key][j])
                    c[d][key][j] -= t
                    n -= t
            yield dict(sc, dirs=c)
        if s["first"]:
            c = copy.deepcopy(sc["dirs"]); c[d]["first"] = 0
            yield dict(sc, dirs=c)
