"""C06: central-subhalo catalogue from FoF/SH data."""
import contextlib, copy, io, random, re
import numpy as np
from sim import gadget_io, omp
from sim.util import *
from checks.c01 import pin, preload, shrink_scheds

ID, LEVEL = "C06", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of the OpenMP threads at every memory access, differential against the catalogue's definition"
NOTE = "Sampled schedules and sampled FoF/SH tables (including empty ones); sequentially consistent memory."
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 2600, 12000
RULE = ("One case = one seeded FoF/SH table and threshold, built under 3 seeded thread schedules, each in a process whose cache is empty, then asked for again. "
        "Non-trivial: a team of at least two threads and at least one switch; distinct: different (table, schedule) pair by hash of the switch sequence.")
REAL = ["gen_catalogues.calcObjCat (compiled with access hooks)", "caching.np_cache_factory", "read_fof, readgadget and DensShapeProfsGadget (construction, getIdxCat, getR200, getMassesCenters, getObjInfo, getObjInfoGadget) on HDF5 files written by the harness"]
STUB = ["OpenMP runtime (libsimomp.so)"]
ASSUMPTIONS = ["sequentially consistent memory", "index sums fit in 32 bits (as the code's types require)"]


def gen(rng, tier, i):
    nh = rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
    mode = rng.choice(["mixed"] * 6 + ["nosubs", "allsmall", "allpass"])
    big = rng.choice([3, 12, 40])
    halos = []
    for _ in range(nh):
        k = 0 if mode == "nosubs" else rng.choice([0, 1, 1, 2, 3, 6])
        subs = [rng.randint(0, big) for _ in range(k)]
        if mode == "allpass" and subs:
            subs[0] = big
        if rng.random() < 0.2 and subs:
            subs[0] = 0
        halos.append({"subs": subs, "fuzz": rng.choice([0, 0, 1, 5]), "r": rng.choice([0.0, rng.uniform(0.1, 2)])})
    mn = rng.choice([0, 1, 2, big // 2, big, big + 1]) if mode != "allsmall" else big + 1
    sc = {"halos": halos, "min": mn, "scheds": [omp.gen_sched(rng, horizon=400) for _ in range(3)]}
    if rng.random() < 0.25:
        sc["files"] = {"type": rng.choice([["gas", 0], ["dm", 1], ["stars", 4]]), "n": rng.choice([1, 1, 2, 3]), "snap": rng.choice([1, 2]), "seed": rng.getrandbits(30), "rdef": rng.choice(["Rvir", "R200"]),
                       "order": rng.sample(["info", "infog", "idx", "r200", "mass", "infog"], 6)}
    return sc


def tables(sc):
    hs = sc["halos"]
    nb = np.array([len(h["subs"]) for h in hs], dtype=np.int32)
    sh = np.array([x for h in hs for x in h["subs"]], dtype=np.int32)
    fof = np.array([sum(h["subs"]) + h["fuzz"] for h in hs], dtype=np.int32)
    r = np.array([h["r"] for h in hs], dtype=np.float64)
    return nb, sh, fof, r


def model(sc):
    idx, rs, sizes, start = [], [], [], 0
    for h in sc["halos"]:
        n = sum(h["subs"]) + h["fuzz"]
        if h["subs"] and h["subs"][0] >= sc["min"]:
            idx += range(start, start + h["subs"][0])
            rs.append(h["r"])
            sizes.append(h["subs"][0])
        start += n
    return idx, rs, sizes


def summary(text):
    """the numbers at the end of the printed lines"""
    return [int(m.group(1)) for m in (re.search(r"(\d+)$", l.strip()) for l in text.splitlines() if "Snap " not in l and "snap " not in l) if m]


def from_files(o, sc, work):
    """the same table as group files and a snapshot: what an analysis object says of it"""
    f, (nb, sh, fof, r), (idx, rs, sizes) = sc["files"], tables(sc), model(sc)
    rng = random.Random(f["seed"])
    pt = f["type"][1]

    def types(n):
        t = [rng.randint(0, 60) for _ in range(6)]
        t[pt] = n
        return t
    groups = [{"len": types(int(n)), "rvir": float(np.float32(x["r"])) if f["rdef"] == "Rvir" else 9.5, "r200": 9.25 if f["rdef"] == "Rvir" else float(np.float32(x["r"])), "subs": [types(k) for k in x["subs"]]}
              for n, x in zip(fof, sc["halos"])]
    gadget_io.write_fof(work + "/groups", groups, gadget_io.split_counts(len(groups), f["n"], rng), gadget_io.split_counts(len(sh), f["n"], rng))
    n = int(fof.sum()) + rng.randint(1, 5)
    g = np.random.RandomState(f["seed"])
    m = np.float64(np.float32(g.uniform(0.5, 2, n)))
    gadget_io.write_snapshot(work + "/snap", {pt: dict(x=g.uniform(10, 11, (n, 3)), v=np.zeros((n, 3)), m=m, id=np.arange(n), counts=gadget_io.split_counts(n, f["snap"], rng))}, 100.0, f["snap"])

    def act():
        import cosmic_profiles as cp
        cp.updateInUnitSystem("Mpc/h", "E+10Msun/h", "km/s", 0.6774)
        cp.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", 0.6774)
        omp.configure(sc["scheds"][0] if sc["scheds"] else {"policy": omp.SEQ, "threads": 1})
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                obj = cp.DensShapeProfsGadget(work + "/snap", work + "/groups", f["type"][0], "035", work + "/viz", work + "/cat", RVIR_OR_R200=f["rdef"], MIN_NUMBER_PTCS=sc["min"], CENTER="com")
            except ValueError as e:
                return ("refused", str(e))
            res = []
            for what in f["order"]:
                out.seek(0); out.truncate()
                if what == "info":
                    obj.getObjInfo()
                    res.append(summary(out.getvalue()))
                elif what == "infog":
                    obj.getObjInfoGadget()
                    res.append(summary(out.getvalue()))
                elif what == "idx":
                    res.append([np.array(x).tolist() for x in obj.getIdxCat()])
                elif what == "r200":
                    res.append(np.array(obj.getR200()))
                else:
                    res.append(np.array(obj.getMassesCenters(list(range(len(sizes))))["mass"]) if sizes and min(sizes) else None)
        return ("ok", res)
    k, v = isolated(act)
    if k != "ok":
        o.v("exception" if k == "exc" else "died-signal-%d" % v, "from files (%s): %s" % (f["order"], v))
        return
    if v[0] == "refused":
        if len(nb):
            o.v("refused", "from files: %s" % v[1])
        return
    if not len(nb):
        o.v("not-refused", "from files: an analysis object from group files without a single group")
        return
    o.count("analysis objects judged")
    ends = np.cumsum([0] + sizes)
    want = {"info": [len(sizes)], "infog": [len(sizes), int((nb != 0).sum()), len(nb), len(sh), int((nb == 0).sum()), len(sizes)], "idx": [idx, sizes], "r200": np.array([np.float32(x) for x in rs], dtype=float),
            "mass": np.array([m[idx[ends[i]:ends[i + 1]]].sum() if sizes[i] else 0.0 for i in range(len(sizes))])}
    for what, got in zip(f["order"], v[1]):
        if got is None:             # an object without particles has no mass and no center
            continue
        ok = same_num(got, want[what], 1e-5) if isinstance(want[what], np.ndarray) else got == want[what]
        if not ok:
            o.v("wrong-summary" if what.startswith("info") else "wrong-catalogue", "from files, %s after %s: %s, by definition %s" % (what, f["order"][:f["order"].index(what)], got if not isinstance(got, np.ndarray) else got.tolist(), want[what]))
            return


def run(sc, work):
    from cosmic_profiles.gadget.gen_catalogues import calcObjCat
    o = Obs()
    exp = model(sc)
    if not sc["halos"]:
        o.count("empty_tables")

    def judge(r, label):
        for name, got, want in zip(("indices", "radii", "sizes"), r, exp):
            if np.asarray(got).tolist() != list(want):
                o.v("wrong-catalogue", "%s: %s %s, by definition %s" % (label, name, np.asarray(got).tolist()[:60], list(want)[:60]))

    def once(sd):
        omp.configure(sd)
        a = [np.array(x) for x in calcObjCat(*tables(sc), np.int32(sc["min"]))]
        st, tr, ov = omp.stats(), omp.trace(), omp.overflow()
        b = [np.array(x) for x in calcObjCat(*tables(sc), np.int32(sc["min"]))]
        return a, b, st, tr, ov

    def attempt(sd, label, probe=None):
        def f():
            if probe:
                omp.configure(probe)
                calcObjCat(*tables(dict(sc, halos=sc["halos"][:-1])), np.int32(sc["min"]))
                omp.flag_races()
            return once(sd)
        k, v = isolated(f)
        if k == "signal":
            o.v("died-signal-%d" % v, "%s: the process died" % label)
            return None
        if k == "exc":
            # a table without a single halo may also be refused
            if not sc["halos"] and "ValueError" in v:
                return None
            o.v("exception", "%s: %s" % (label, v))
            return None
        a, b, st, tr, ov = v
        judge(a, label)
        judge(b, label + ", second call")
        return st, tr, ov
    attempt({"policy": omp.SEQ, "threads": 1}, "one thread")
    for si, sd in enumerate(sc["scheds"]):
        if o.viol:
            break
        probe = None
        if sd["policy"] == omp.RACE and "trace" not in sd and len(sc["halos"]) > 1:
            probe = {"policy": omp.LOG, "seed": sd["seed"] ^ 5, "threads": sd["threads"], "log_max": 6, "races": 1}
        res = attempt(sd, "schedule %d [%s, %d threads]" % (si, omp.NAMES[sd["policy"]], sd["threads"]), probe)
        if res:
            st, tr, ov = res
            o.log(si, st["hash"])
            o.count("switches", st["switches"]); o.count("steps", st["steps"]); o.count("fault:preemption", st["switches"]); o.count("fault:team smaller than requested", st["small_teams"])
            if sd["policy"] == omp.STARVE:
                o.count("fault:starved thread")
            o.count("policy:" + omp.NAMES[sd["policy"]])
            o.simtime += st["steps"]
            if st["switches"]:
                o.sigs.append("%x-%s" % (st["hash"], h(sc["halos"])))
            if o.viol and not ov:
                o.trace = [si, tr]
    if sc.get("files") and not o.viol:
        from_files(o, sc, work)
    o.sample = "%d halos with %s subhalos, threshold %d, %d objects, schedules %s" % (
        len(sc["halos"]), [len(x["subs"]) for x in sc["halos"]][:12], sc["min"], len(exp[2]), [(omp.NAMES[s["policy"]], s["threads"]) for s in sc["scheds"]])
    return o.out()


def shrinks(sc):
    yield from shrink_scheds(sc)
    if sc.get("files"):
        yield dict(sc, files=None)
        for k, v in (("n", 1), ("snap", 1), ("rdef", "Rvir")):
            if sc["files"][k] != v:
                yield dict(sc, files=dict(sc["files"], **{k: v}))
        for c in shrink_list(sc["files"]["order"], keep=1):
            yield dict(sc, files=dict(sc["files"], order=c))
    for c in shrink_list(sc["halos"]):
        yield dict(sc, halos=c)
    for i, x in enumerate(sc["halos"]):
        if len(x["subs"]) > 1:
            c = copy.deepcopy(sc["halos"]); c[i]["subs"] = x["subs"][:1]
            yield dict(sc, halos=c)
