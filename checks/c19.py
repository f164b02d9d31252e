"""C19: a multi-process (MPI) job: rank 0 answers as a single process would, the other ranks follow without results, files, errors or waiting."""
import copy, hashlib, os, random, re, sys, warnings
import numpy as np
from sim import mpi, omp, ops, plots, pool
from sim.util import *

ID, LEVEL = "C19", "exploration"
TECHNIQUE = ("deterministic simulation of an MPI job: every rank is a real process running the same script of public calls over a simulated communicator; a seeded scheduler picks the rank that runs next at every communication and "
             "file-writing point, with crashes, disk errors and starvation injected per rank; rank 0's answers, figures, prints and files compared with a run of one process")
NOTE = ("Sampled scripts, rank counts, schedules and faults. The communicator is a model of MPI: collectives in program order, reliable messages. Numerical work inside a rank runs to its next communication or file point. "
        "After a fault the job may stop or wait, but what was answered before must be right. What is wrong in a single process too is left to C01-C18.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 420, 9000
TIME_UNIT = "scheduler steps (rank switches at communication and file points)"
RULE = ("One case = one seeded script of public calls run by 2-5 ranks under one seeded schedule, with or without faults. Distinct: by hash of (schedule, message order, fault points).")
REAL = ["all public calls on DensShapeProfs and DensShapeProfsGadget, genHalo, unit system (real code in every rank process)", "HDF5 input files, dumped catalogues on disk", "matplotlib up to savefig on rank 0"]
STUB = ["mpi4py (simulated communicator)", "process pool (seeded scheduling of forked workers)", "OpenMP runtime (one thread)", "PDF rendering (figures are captured; the file written holds a digest)"]
ASSUMPTIONS = ["all ranks run the same script", "the same script run by one process is the reference", "MPI delivers messages reliably and in order"]
KINDS = ops.SHAPES + ops.DATA + ops.GETTERS + ops.PLOTS + ops.DUMPS
GKINDS = ops.VDUMPS + ["header", "info", "infog"]


def preload():
    import numpy, h5py, scipy, scipy.linalg, scipy.optimize, scipy.interpolate, scipy.spatial, scipy.integrate, scipy.special, psutil, glob, dill  # noqa
    pool.install()
    plots.install()
    import mpl_toolkits.mplot3d  # noqa
    try:
        import sklearn.neighbors  # noqa
    except ImportError:
        pass
    from checks import c02  # noqa
    assert "cosmic_profiles" not in sys.modules and "mpi4py" not in sys.modules


def gen(rng, tier, i):
    size = rng.choice([2, 2, 2, 3, 3, 4, 5])
    nc = rng.choice([1, 1, 2])
    cats = [ops.gen_cat(rng, True, max_n=30, nobj=rng.choice([2, 3, 4])) for _ in range(nc)]
    objs = []
    for _ in range(rng.choice([1, 1, 2])):
        objs.append({"cat": rng.randrange(nc), "gad": rng.random() < 0.7, "center": rng.choice(["mode", "com"]), "rdef": rng.choice(["Rvir", "R200"])})
    nobj = [len(cats[o["cat"]]["objs"]) for o in objs]
    gad = [o["gad"] for o in objs]
    script = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        r = rng.random()
        if r < 0.12:
            script.append({"op": "sync", "obj": 0, "sel": [0], "how": rng.choice(["barrier", "bcast", "gather"])})
        elif r < 0.2:
            script.append({"op": "chain", "obj": rng.randrange(len(objs)), "sel": [], "out": rng.randrange(len(ops.OUT)), "prof": rng.choice(["nfw", "einasto", "hernquist", "alpha_beta_gamma"]),
                           "how": rng.choice(["fit", "conc", "plotDens"]), "nb": rng.randint(1, 2)})
            k = script[-1]["obj"]
            script[-1]["sel"] = rng.sample(range(nobj[k]), rng.randint(1, nobj[k]))
        elif r < 0.25:
            script.append({"op": "mock", "obj": 0, "sel": [0], "prof": rng.choice(["nfw", "hernquist"]), "res": rng.choice([30, 100])})
        else:
            k = rng.randrange(len(objs))
            op = ops.gen_op(rng, nobj, gad, KINDS, objs=[k])
            if gad[k] and rng.random() < 0.25:
                op["op"] = rng.choice(GKINDS)
            elif rng.random() < 0.06:
                op["op"] = "info"
            script.append(op)
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({"kind": rng.choice(["crash", "crash", "eio", "enospc", "enoent"]), "rank": rng.randrange(size), "at": rng.choice([rng.randrange(3), rng.randrange(12), rng.randrange(50)])})
    return {"size": size, "cats": cats, "objs": objs, "script": script, "katz": [ops.gen_katz(rng), ops.gen_katz(rng)], "files": rng.choice([1, 2, 3]), "ptype": rng.choice([["dm", 1], ["stars", 4], ["gas", 0]]),
            "time": rng.choice([1.0, 0.5]), "lay": rng.getrandbits(32), "pool": pool.gen(rng, 4, 4, 0.0), "faults": faults, "rnd": rng.getrandbits(30), "lazy": rng.random() < 0.4, "cache": rng.choice([None, None, [0, 0], [0, 1], [0, 2], [1000000, 128]]), "seed": rng.random() < 0.5,
            "sched": {"seed": rng.getrandbits(32), "policy": rng.choice(["random", "random", "prio", "starve"]), "eager": rng.choice([0, 1])}}


class Log:
    """what a call prints: the lines without the elapsed time"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        pass

    def take(self):
        l = [re.sub(r"^\d+\ts: ", "", x) for x in self.text.splitlines()]
        self.text = ""
        return [x for x in l if x.strip()]


def nothing(r):
    """an answer that holds no result"""
    return r is None or isinstance(r, (tuple, list)) and all(nothing(x) for x in r)


def chain(obj, sc, op, comm):
    """profiles estimated on rank 0, handed to all ranks, then fitted, as in example_scripts/gadget3_hdf5.py"""
    R = np.logspace(-0.9, 0.1, 7)
    sel = list(op["sel"])
    d = obj.estDensProfs(R, sel, direct_binning=True, spherical=True)
    if comm.Get_rank():
        if d is not None:
            return d
        d = np.zeros((len(sel), len(R)))
    comm.Bcast(d, root=0)
    if op["how"] == "plotDens":
        p = op["prof"] if op["prof"] != "alpha_beta_gamma" else "nfw"
        return obj.plotDensProfs(d, R, d[:, 2:], R[2:], {"profile": p}, op["nb"], sel)
    return {"fit": obj.fitDensProfs, "conc": obj.estConcentrations}[op["how"]](d[:, 1:], R[1:], {"profile": op["prof"]}, sel)


def sync(op, comm, n):
    r = comm.Get_rank()
    if op["how"] == "barrier":
        comm.Barrier()
    elif op["how"] == "bcast":
        if comm.bcast(n if r == 0 else None, root=0) != n:
            raise Unsupported("misaligned")
    else:
        g = comm.gather((r, n), root=0)
        if r == 0 and g != [(k, n) for k in range(comm.Get_size())]:
            raise Unsupported("misaligned")


def body_factory(sc, w, faulty):
    def body(job):
        warnings.simplefilter("ignore")
        import cosmic_profiles as cp
        from mpi4py import MPI
        assert cp.__file__.startswith(os.environ["SIM_BUILD"]), cp.__file__
        if sc["cache"]:
            cp.updateCachingMaxGBs(sc["cache"][0])
            cp.updateCachingMaxSize(sc["cache"][1])
        omp.configure({"policy": omp.SEQ, "threads": 1})
        comm = MPI.COMM_WORLD
        rank = job.rank
        rng = random.Random("%d/%d" % (sc["rnd"], rank))
        if sc["seed"]:
            np.random.seed(rng.getrandbits(31))
        here = w.work + "/cwd%d" % rank
        os.makedirs(here, exist_ok=True)
        os.chdir(here)
        writes, busy = [], [False]

        def audit(ev, args):
            if busy[0]:
                return
            if ev == "open":
                path, mode, flags = args
                if not isinstance(path, (str, bytes)) or not ((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) or isinstance(mode, str) and set(mode) & set("wax+")):
                    return
            elif ev in ("os.remove", "os.rename", "os.truncate", "os.rmdir"):
                path = args[0]
            elif ev == "os.mkdir":
                path = args[0]
            else:
                return
            path = os.path.abspath(os.fsdecode(path)) if isinstance(path, (str, bytes)) else ""
            if not path.startswith((w.out, w.work)):
                return
            busy[0] = True
            try:
                if ev != "os.mkdir":
                    writes.append((ev, os.path.relpath(path, w.work)))
                job.point(ev + " " + os.path.basename(path))
            finally:
                busy[0] = False
        sys.addaudithook(audit)
        import h5py
        Real = h5py.File

        class File(Real):
            def __init__(self, name, *a, **k):
                job.point("h5open")
                Real.__init__(self, name, *a, **k)
        h5py.File = File
        log = Log()
        pool.start(copy.deepcopy(sc["pool"]))
        out, live = [], {}
        old = sys.stdout
        try:
            sys.stdout = log
            ops.set_units(0)
            if not sc["lazy"]:
                for k in range(len(sc["objs"])):
                    live[k] = open_loud(w, k)
            log.take()
            for n, op in enumerate(sc["script"]):
                name = op["op"]
                if name == "sync":
                    sync(op, comm, n)
                    out.append(("ok", None, [], [], [], None))
                    continue
                ops.set_units(0)
                if name != "mock" and op["obj"] not in live:
                    live[op["obj"]] = open_loud(w, op["obj"])
                    log.take()
                nw = len(writes)
                try:
                    if name == "mock":
                        a = np.array([0.2, 0.6, 1.0])
                        r = cp.genHalo(1e12, op["res"], {"r_s": 0.3}, op["prof"], a, a * 0.8, a * 0.6)
                        r = r if nothing(r) else (np.array(len(r[0]), dtype=float),) + tuple(np.array(len(x), dtype=float) for x in r[1:3]) + tuple(r[3:])
                    else:
                        obj, ins, viz, cat = live[op["obj"]]
                        plots.take()
                        ops.set_units(op.get("out", 0))
                        if name == "chain":
                            r = chain(obj, sc, op, comm)
                        elif name == "infog":
                            r = obj.getObjInfoGadget()
                        else:
                            m, a, kw = ops.arguments(sc, op)
                            r = getattr(obj, m)(*a, **kw)
                except Unsupported:
                    raise
                except Exception as e:
                    if not isinstance(e, OSError) or not faulty:
                        out.append(("exc", exc_text(e)))
                        break
                    out.append(("fault", exc_text(e)))      # the user's script ends here
                    break
                figs = ops.figures(viz) if name != "mock" else []
                if rank == 0:
                    res = ops.canon(r) if name != "header" else repr(sorted((k, np.asarray(v).tolist()) for k, v in vars(r).items() if not k.startswith("_")))
                    if name.startswith("dump"):
                        res = ops.read_dump(cat)
                elif name == "header":
                    res = "header"
                else:
                    res = None if nothing(r) else repr(type(r))
                out.append(("ok", res, figs, log.take(), writes[nw:] if rank else [], len(r) if isinstance(r, tuple) else None))
                log.take()
        finally:
            sys.stdout = old
            pool.stop()
        return out, (writes if rank else [])
    return body


def open_loud(w, k):
    """World.open silences the output, which is this check's to capture"""
    return w.open(k)


def tree(d):
    """folder -> {relative file: digest of its content without comment lines}"""
    out = {}
    for base, _, names in os.walk(d):
        for f in names:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                b = fh.read()
            if f.endswith(".txt"):
                b = b"\n".join(l for l in b.split(b"\n") if not l.startswith(b"#"))
            out[os.path.relpath(p, d)] = hashlib.sha256(b).hexdigest()[:16]
    return out


def prepare(sc, work):
    """input files, written by a process of its own: this one must not import the library"""
    def f():
        mpi.solo()
        os.makedirs(work)
        w = ops.World(sc, work)
        return w.cats
    st = isolated(f)
    if st[0] != "ok":
        raise RuntimeError(st[1])
    w = object.__new__(ops.World)
    w.sc, w.work, w.cats, w.out = sc, work, st[1], work + "/out"
    return w


def run(sc, work):
    o = Obs()
    w = prepare(sc, work + "/job")
    ref = copy.copy(w)
    ref.out = w.work + "/ref"
    base = mpi.run(1, body_factory(sc, ref, False), {"seed": 1, "policy": "random"}, [])
    b = base.ranks[0]
    if b[0] != "done":
        o.v("single-process", "a single process: %s" % (b[1:2],))
        return o.out()
    want = b[1][0]
    res = mpi.run(sc["size"], body_factory(sc, w, bool(sc["faults"])), sc["sched"], sc["faults"])
    hit = list(res.faults)
    for k in hit:
        o.count("fault:" + k)
    o.count("policy:" + sc["sched"]["policy"])
    o.count("steps", res.steps)
    o.simtime = res.steps
    o.trace = res.trace
    o.log(res.hash, [r[0] if r else None for r in res.ranks])
    o.sigs.append(res.hash)
    if res.mismatch and not hit:
        o.v("mismatched-collectives", res.mismatch)
    for r, out in enumerate(res.ranks):
        if out and out[0] == "done":
            o.count("ranks judged")
            judge(o, sc, "rank %d of %d" % (r, sc["size"]), r, out[1], want, hit)
    for r, out in enumerate(res.ranks):
        who = "rank %d of %d" % (r, sc["size"])
        if out is None or hit or o.viol:
            continue
        if out[0] == "hung":
            o.v("hang", "%s waits forever without any fault (%s)" % (who, [x[0] for x in res.ranks]))
        elif out[0] == "exc":
            o.v("exception", "%s: %s" % (who, out[1]))
        elif out[0] == "dead":
            o.v("died", "%s died without any fault" % who)
    if not hit and not o.viol:
        a, c = tree(w.out), tree(ref.out)
        o.count("files compared", len(c))
        if a != c:
            d = sorted(k for k in set(a) | set(c) if a.get(k) != c.get(k))
            o.v("files", "after the job of %d ranks, files differ from those a single process leaves: %s" % (sc["size"], d[:8]))
    o.sample = "%d ranks, objects %s, script %s, faults %s, %s schedule of %d steps" % (sc["size"], ["files" if q["gad"] else "arrays" for q in sc["objs"]], [q["op"] for q in sc["script"]], hit or "none",
                                                                                       sc["sched"]["policy"], res.steps)
    return o.out()


def judge(o, sc, who, r, got, want, hit):
    steps, writes = got
    for n, (g, op) in enumerate(zip(steps, sc["script"])):
        where = "%s, step %d: %s" % (who, n, op["op"] if op["op"] in ("sync", "mock") else "%s of objects %s of analysis object %d" % (op["op"] + (":" + op["how"] if op["op"] == "chain" else ""), op["sel"], op["obj"]))
        ref = want[n] if n < len(want) else None
        if ref is None or g[0] == "fault":
            return
        if g[0] == "exc":
            if ref[0] != "exc":
                if not hit:
                    o.v("exception", "%s: %s; a single process answers" % (where, g[1]))
                return
            if r == 0 and g[1] != ref[1]:
                o.v("differs", "%s: %s; a single process: %s" % (where, g[1], ref[1]))
            return
        if r == 0:
            if ref[0] == "exc":
                o.v("differs", "%s: answered; a single process: %s" % (where, ref[1]))
                return
            for k, what in ((1, "answer"), (2, "figures"), (3, "printed lines")):
                d = ops.differ(g[k], ref[k])
                if d:
                    o.v("differs", "%s: %s of rank 0 differ from a single process: %s" % (where, what, d))
                    return
            o.count("answers judged")
        elif ref[0] == "exc":
            return
        elif op["op"] == "header":
            if g[1] != "header":
                o.v("other-rank", "%s: no header" % where)
        elif op["op"] != "sync":
            if g[1] is not None:
                o.v("other-rank", "%s: returned a result (%s)" % (where, g[1]))
            if ref[5] is not None and g[5] != ref[5]:
                o.v("other-rank", "%s: a single process returns %d things, this rank %s" % (where, ref[5], "None" if g[5] is None else g[5]))
            if g[2]:
                o.v("other-rank", "%s: saved figures %s" % (where, [f["file"] for f in g[2]]))
            if g[3]:
                o.v("other-rank", "%s: printed %s" % (where, g[3][:3]))
            if g[4]:
                o.v("other-rank", "%s: wrote files %s" % (where, g[4][:4]))
            o.count("other ranks judged")
    if r and writes and not o.viol:
        o.v("other-rank", "%s wrote files: %s" % (who, writes[:4]))


def pin(sc, trace):
    sc["sched"] = dict(sc["sched"], trace=trace)
    return sc


def shrinks(sc):
    for i in range(len(sc["faults"])):
        yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:])
    for c in shrink_list(sc["script"], keep=1):
        yield dict(sc, script=c)
    tr = sc["sched"].get("trace")
    if tr is None:
        if sc["size"] > 2:
            n = sc["size"] - 1
            yield dict(sc, size=n, faults=[f for f in sc["faults"] if f["rank"] < n])
        used = sorted({q["obj"] for q in sc["script"]})
        if len(used) < len(sc["objs"]):
            yield dict(sc, objs=[sc["objs"][k] for k in used], script=[dict(q, obj=used.index(q["obj"])) for q in sc["script"]])
        for k in ("lazy", "seed", "cache"):
            if sc[k]:
                yield dict(sc, **{k: None})
        if sc["sched"]["eager"]:
            yield dict(sc, sched=dict(sc["sched"], eager=0))
    else:
        for k in (0, len(tr) // 4, len(tr) // 2, 3 * len(tr) // 4):
            if k < len(tr):
                yield dict(sc, sched=dict(sc["sched"], trace=tr[:k]))
        for i in range(len(tr) - 1):
            if tr[i] > tr[i + 1]:
                yield dict(sc, sched=dict(sc["sched"], trace=tr[:i] + [tr[i + 1], tr[i]] + tr[i + 2:]))
    for i, q in enumerate(sc["script"]):
        if q["op"] not in ("sync", "mock") and len(q["sel"]) > 1:
            for c in shrink_list(q["sel"], keep=1):
                yield dict(sc, script=sc["script"][:i] + [dict(q, sel=c)] + sc["script"][i + 1:])
