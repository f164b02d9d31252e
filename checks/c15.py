"""C15: a call completes, or fails and leaves no trace."""
import gc, copy, os, random, warnings
import numpy as np
from sim import fs, halos, omp, ops, plots, pool
from sim.util import *
from checks import c01, c10, c14

ID, LEVEL = "C15", "exploration"
TECHNIQUE = ("deterministic simulation of call histories with seeded faults (failing, full, short and dying disk under the plot and catalogue folders, process death while plotting, failing pool workers) and seeded invalid requests; "
             "after every call the user's inputs, the earlier results, the objects, the units, the random state and the other files are compared with what they were")
NOTE = ("Sampled histories of up to 12 calls on up to 2 objects. Invalid requests are taken from a fixed list of kinds; unsorted, negative or NaN radii, negative masses and non-positive bin counts are not judged. "
        "The renderer is replaced by a small writer in most runs.")
LIBS = ["simomp", "simfs"]
RUNS, RUNS_THOROUGH = 320, 8000
TIME_UNIT = "operations of the history"
RULE = "One case = objects and one history of valid, faulty and invalid calls. Distinct: different history prefixes by hash; counted only if a fault hit or a request was invalid before the judged state."
REAL = ["all public methods of DensShapeProfs and DensShapeProfsGadget, genHalo, unit functions (real code, rebuilt from /repo)", "matplotlib up to savefig"]
STUB = ["disk below the output folders (libsimfs.so)", "process pool (seeded scheduling of forked workers)", "OpenMP runtime (one thread)", "PDF rendering (light writer; real in a fraction of the runs)"]
ASSUMPTIONS = ["a user hands over arrays and lists and keeps using them"]
preload = c14.preload
KINDS = ops.SHAPES + ops.DATA + ops.GETTERS + ops.PLOTS * 2 + ops.DUMPS
SELBAD = ["empty", "frac", "bool", "str", "neg", "repeat", "large", "none"]
TAKES_SEL = ["local", "global", "centers", "sph", "kernel", "ell", "fit", "conc"] + ops.PLOTS + ops.DUMPS


def gen_bad(rng, op):
    name = op["op"]
    kinds = ["sel:" + k for k in SELBAD]
    if name in ("fit", "conc", "plotDens"):
        kinds += ["profile", "noprofile", "rows", "rows+", "cols", "cols+"] * 2 + (["fitrows", "fitcols"] * 2 if name == "plotDens" else ["minmethod"] * 2)
    if name in ("local", "global", "plotShape", "plotLocalT", "plotGlobalT", "vizLocal", "vizGlobal", "dumpLocal", "dumpGlobal", "ell"):
        kinds += ["katz:" + k for k in ("REDUCED", "SHELL_BASED", "missing")]
    return rng.choice(kinds)


FREE = ["center", "rdef", "objtype", "xyz-masses", "r200-idx", "r200-idx+", "idx-large", "idx-neg", "idx-frac", "halo", "inunit", "outunit"]


def gen(rng, tier, i):
    vel = rng.random() < 0.4
    cats = [ops.gen_cat(rng, vel, max_n=35, nobj=rng.choice([2, 3, 3, 4]))]
    objs = [{"cat": 0, "gad": vel and rng.random() < 0.6, "center": rng.choice(["mode", "com"])} for _ in range(rng.choice([1, 1, 2]))]
    nobj = [len(cats[0]["objs"])] * len(objs)
    gad = [o["gad"] for o in objs]
    hist = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        op = ops.gen_op(rng, nobj, gad, KINDS)
        r = rng.random()
        if r < 0.3 and op["op"] in TAKES_SEL:
            op["bad"], op["x"], op["np"] = gen_bad(rng, op), rng.getrandbits(20), rng.random() < 0.3
        elif r < 0.36:
            hist.append({"op": "free", "bad": rng.choice(FREE), "obj": op["obj"], "out": op["out"], "x": rng.getrandbits(20)})
            continue
        elif r < 0.75 and op["op"] in ops.PLOTS + ops.DUMPS:
            op["plan"] = [f for f in c10.gen_plan(rng)]
            for f in op["plan"]:
                f["at"] = rng.randint(1, 30 if op["op"] in ("plotShape", "dumpLocal", "dumpGlobal") else 12)
        op["scribble"] = rng.random() < 0.2
        hist.append(op)
    return {"cats": cats, "objs": objs, "hist": hist, "katz": [ops.gen_katz(rng), ops.gen_katz(rng)], "files": 1, "ptype": rng.choice([["dm", 1], ["stars", 4], ["gas", 0]]),
            "time": 1.0, "lay": rng.getrandbits(32), "pool": pool.gen(rng, 4, 4, 0.3), "real": rng.random() < 0.01}


def snap(x):
    """digest of anything a user holds"""
    if isinstance(x, np.ndarray):
        return h(x) if not x.dtype.names else h(*[np.ascontiguousarray(x[f]) for f in x.dtype.names])
    if isinstance(x, dict):
        return h(*[(k, snap(x[k])) for k in x])
    if isinstance(x, (list, tuple)):
        return h(type(x).__name__, *[snap(v) for v in x])
    return h(repr(x))


def state():
    from cosmic_profiles.common import config as g
    return {"the units in force": snap([g.InUnitLength_in_cm, g.InUnitMass_in_g, g.InUnitVelocity_in_cm_per_s, g.OutUnitLength_in_cm, g.OutUnitMass_in_g, g.OutUnitVelocity_in_cm_per_s, g.LittleH]),
            "numpy's random state": snap(list(np.random.get_state())), "Python's random state": h(random.getstate()), "the working directory": os.getcwd(), "numpy's error handling": snap(np.geterr()),
            "numpy's print options": snap({k: v for k, v in np.get_printoptions().items()})}


def tree(d):
    out = {}
    for r, ds, fl in os.walk(d):
        for f in fl:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = h(open(p, "rb").read())
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = ""
    return out


def getters(obj):
    """what the object says about itself, in fixed units"""
    ops.set_units(0)
    with ops.quiet():
        x, m = obj.getXYZMasses()
        return {"getR200": snap(np.array(obj.getR200())), "getXYZMasses": snap([np.array(x), np.array(m)]), "getIdxCat": snap([np.asarray(a).tolist() for a in obj.getIdxCat()])}


def spoil(sc, op, args, n):
    """make the request invalid"""
    m, a, kw = args
    k, x = op["bad"], op["x"]
    si = len(a) - 1 if not isinstance(a[-1], dict) else len(a) - 2          # place of the selection
    sel = a[si]
    if k.startswith("sel:"):
        k = k[4:]
        full = list(range(n))
        s = {"empty": [], "frac": [v + 0.5 for v in sel], "bool": [True, False][: max(1, x % 3)], "str": [str(v) for v in sel], "neg": sel + [-1 - x % n],
             "repeat": (sel + full)[: n + 1], "large": sel + [n + x % 3 * 1000], "none": None}[k]
        if k == "repeat":
            s = sel + [sel[x % len(sel)]]
        if op["np"] and s is not None:
            s = np.array(s)
        a[si] = s
    elif k == "profile":
        [v for v in a if isinstance(v, dict) and "profile" in v][0]["profile"] = ["NFW", "king", "", "Einasto", "nfw ", 3][x % 6]
    elif k == "noprofile":
        [v for v in a if isinstance(v, dict) and "profile" in v][0].pop("profile")
    elif k == "minmethod":
        [v for v in a if isinstance(v, dict) and "profile" in v][0]["min_method"] = ["powel", "x", "Newton"][x % 3]
    elif k == "rows":
        a[0] = a[0][:-1]
    elif k == "rows+":
        a[0] = np.vstack([a[0], a[0][:1]])
    elif k == "cols":
        a[0] = a[0][:, :-1]
    elif k == "cols+":
        a[0] = np.hstack([a[0], a[0][:, :1]])
    elif k == "fitrows":
        a[2] = a[2][:-1] if x % 2 else np.vstack([a[2], a[2][:1]])
    elif k == "fitcols":
        a[2] = a[2][:, :-1] if x % 2 else np.hstack([a[2], a[2][:, :1]])
    elif k.startswith("katz:"):
        kc = kw["katz_config"] if "katz_config" in kw else a[-1]
        if k == "katz:missing":
            kc.pop(sorted(kc)[x % len(kc)])
        else:
            kc[k[5:]] = ["yes", 1, 0, None, "False"][x % 5]
    return m, a, kw


def free(sc, op, w):
    """invalid constructors and other calls -> description, function"""
    import cosmic_profiles as cp
    k, x, c = op["bad"], op["x"], w.cats[op["obj"]]
    idx, r = [list(l) for l in c.idx], np.array(c.r200, dtype=float)

    def mk(xyz=c.x, m=c.m, idx=idx, r=r, center="mode"):
        return cp.DensShapeProfs(np.array(xyz), np.array(m), idx, r, c.L, "035", w.out + "/vizbad", w.out + "/catbad", MIN_NUMBER_PTCS=5, CENTER=center)
    if k == "center":
        return lambda: mk(center=["Mode", "COM", "", "foo"][x % 4])
    if k in ("rdef", "objtype"):
        g = [j for j, q in enumerate(sc["objs"]) if q["gad"]]
        if not g:
            return lambda: mk(center="center")
        d = "%s/in%d" % (w.work, g[0])
        kw = dict(OBJ_TYPE=sc["ptype"][0], RVIR_OR_R200="Rvir")
        kw["RVIR_OR_R200" if k == "rdef" else "OBJ_TYPE"] = ["foo", "rvir", "R500", ""][x % 4]
        return lambda: cp.DensShapeProfsGadget(d + "/snap/snap_035", d + "/groups", kw["OBJ_TYPE"], "035", w.out + "/vizbad", w.out + "/catbad", RVIR_OR_R200=kw["RVIR_OR_R200"], MIN_NUMBER_PTCS=5, CENTER="com")
    if k == "xyz-masses":
        return lambda: mk(m=c.m[:-1 - x % 3])
    if k == "r200-idx":
        return lambda: mk(r=r[:-1])
    if k == "r200-idx+":
        return lambda: mk(r=np.append(r, 1.0))
    if k.startswith("idx-"):
        j = x % len(idx)
        idx[j] = list(idx[j])
        idx[j][x % len(idx[j])] = {"large": len(c.x) + x % 5, "neg": -1 - x % 3, "frac": 0.5}[k[4:]]
        return lambda: mk(idx=idx)
    if k == "halo":
        a = np.logspace(-1.5, 0, 8)
        return lambda: cp.genHalo(1e12, 200, {"r_s": 0.2}, ["foo", "NFW", "", "king"][x % 4], a, a, a)
    u = [["kpcs", "Msun", "km/s"], ["kpc", "msol", "km/s"], ["kpc", "Msun", "m/s"]][x % 3]
    return lambda: (cp.updateInUnitSystem if k == "inunit" else cp.updateOutUnitSystem)(*u, 0.7)


def listing(r):
    """files an operation writes"""
    return [f["file"] for f in r] if isinstance(r, list) else sorted(r)


def run(sc, work):
    o = Obs()
    warnings.simplefilter("ignore")
    omp.configure({"policy": omp.SEQ, "threads": 1})
    plots.REAL = sc["real"]
    w = ops.World(sc, work)
    os.makedirs(w.out, exist_ok=True)
    refs = {}

    def ref(op, n):
        key = repr(sorted((k, v) for k, v in op.items() if k not in ("plan", "scribble")))
        if key not in refs:
            d = dict(op)
            w2 = copy.copy(w)
            w2.out = work + "/refout"
            refs[key] = c14.reference(w2, sc, d, str(n))
        return refs[key]
    os.makedirs(work + "/cwd")
    os.chdir(work + "/cwd")
    world = pool.start(copy.deepcopy(sc["pool"]))
    events = 0
    try:
        live = []
        for k in range(len(sc["objs"])):
            ops.set_units(0)
            live.append(w.open(k))
        held = [(("inputs of object %d" % k), ins, snap(ins)) for k, (_, ins, _, _) in enumerate(live)]
        said = [getters(l[0]) for l in live]
        results, dumped = [], set()
        for n, op in enumerate(sc["hist"]):
            o.simtime += 1
            obj, _, viz, cat = live[op["obj"]]
            nn = len(sc["cats"][sc["objs"][op["obj"]]["cat"]]["objs"])
            where = c14.label(n, op) if op["op"] != "free" else "step %d: invalid %s" % (n, op["bad"])
            want = ref(op, n) if op["op"] != "free" and not op.get("bad") else None
            plan = op.get("plan") or []
            ops.set_units(op["out"])
            plots.take()
            if op["op"] == "free":
                args = None
                fn = free(sc, op, w)
            else:
                args = ops.arguments(sc, op)
                if op.get("bad"):
                    args = spoil(sc, op, args, nn)
                    where += " made invalid (%s)" % op["bad"]

                def fn():
                    return getattr(obj, args[0])(*args[1], **args[2])
            asnap = snap(args) if args else None
            st, files, nh = state(), tree(w.out), len(world.hits)
            crash = any(f["kind"].startswith("crash") or f["kind"] == "torn" for f in plan)
            err, r, hits = None, None, {}
            if plan:
                fs.start(w.out, plan)
            if crash:            # the process that plots dies; this one lives on and takes its place
                def lifefn(emit):
                    with ops.quiet():
                        fn()
                    return fs.hits()
                end, _ = c10.life(lifefn)
                fs.stop()
                if end[0] == "signal":
                    o.v("died-signal-%d" % end[1], where); break
                if end[0] == "died":
                    o.count("fault:process death while writing"); hits = {"crash": 1}
                    err = "died"
                elif end[0] == "exc":
                    err = end[1]
                    hits = {"?": 1}
                else:
                    hits = end[1]
            else:
                try:
                    with ops.quiet():
                        r = fn()
                except Unsupported:
                    raise
                except Exception as e:
                    err = exc_text(e)
                finally:
                    if plan:
                        fs.stop()
                        hits = fs.hits()
                        for k, v in hits.items():
                            o.count("fault:disk " + k, v)
            if hits or err:
                gc.collect()        # what matplotlib left open when it failed is written out now, not at some later moment
            figs = ops.figures(viz)
            poolhit = len(world.hits) > nh
            if poolhit:
                o.count("fault:pool worker")
            if hits or poolhit or op.get("bad"):
                events += 1
            # 1. nothing the user holds has changed
            now = state()
            for k in st:
                if now[k] != st[k]:
                    o.v("trace-left", "%s%s: %s changed" % (where, " (raised %s)" % err if err else "", k))
            if asnap is not None and snap(args) != asnap:
                o.v("trace-left", "%s%s: the arguments of the call were modified" % (where, " (raised %s)" % err if err else ""))
            for what, x, s in held:
                if snap(x) != s:
                    o.v("trace-left", "%s: %s were modified" % (where, what))
            for what, x, s in results:
                if snap(x) != s:
                    o.v("trace-left", "%s: the result of %s, returned earlier, was modified" % (where, what))
            for k, l in enumerate(live):
                g = getters(l[0])
                for q in g:
                    if g[q] != said[k][q]:
                        o.v("trace-left", "%s%s: %s of object %d gives something else" % (where, " (raised %s)" % err if err else "", q, k))
            after = tree(w.out)
            # 2. invalid requests are refused and write nothing
            if op.get("bad"):
                o.count("invalid requests judged")
                if err is None:
                    o.v("accepted-invalid", "%s was accepted" % where)
                ch = sorted(set(after.items()) ^ set(files.items()))
                if ch:
                    o.v("trace-left", "%s: refused, but %s was created or changed" % (where, ch[0][0]))
            else:
                own = {os.path.relpath(os.path.join(viz if op["op"] in ops.PLOTS else cat, f), w.out) for f in listing(want[1])} if want[0] == "ok" and op["op"] in ops.PLOTS + ops.DUMPS else set()
                for f in files:
                    if after.get(f) != files[f] and f not in own and not f.endswith("/") and f + ".part" not in own:
                        o.v("trace-left", "%s: the file %s of another request was %s" % (where, f, "removed" if f not in after else "changed"))
                if err is not None and want[0] == "ok" and not hits and not poolhit:
                    o.v("failed-without-fault", "%s: raised %s" % (where, err))
                if err is None and want[0] == "exc":
                    o.v("history-dependent", "%s: answered, but alone in a fresh process: %s" % (where, want[1]))
                stale = op["obj"] in dumped and c14.rtol_for(op, True) != 1e-9
                if err is None and want[0] == "ok" and not crash:
                    got = figs if op["op"] in ops.PLOTS else ops.read_dump(cat) if op["op"] in ops.DUMPS else ops.canon(r)
                    judge(o, where, op, got, want[1], viz, cat, stale)
                if err is None and own and not o.viol:
                    whole(o, where, op, own, w, viz)
                # 3. once the fault is over the same request succeeds
                if (err is not None or crash) and want[0] == "ok" and not o.viol:
                    ops.set_units(op["out"])
                    plots.take()
                    try:
                        got = ops.perform(obj, viz, cat, sc, op)
                        o.count("requests repeated after a fault")
                        judge(o, where + ", repeated after the fault", op, got, want[1], viz, cat, stale)
                        if own and not o.viol:
                            whole(o, where + ", repeated after the fault", op, own, w, viz)
                    except Unsupported:
                        raise
                    except Exception as e:
                        if not (isinstance(e, (MemoryError, OSError)) and len(world.hits) > nh + poolhit):
                            o.v("unusable-after-fault", "%s: repeated after the fault it raised %s" % (where, exc_text(e)))
                if op["op"] in ops.DUMPS:
                    dumped.add(op["obj"])
            if o.viol:
                break
            if isinstance(r, np.ndarray) and op["op"] not in ops.GETTERS:
                if op.get("scribble") and r.flags.writeable:
                    for f in (r.dtype.names or [None]):
                        (r if f is None else r[f])[...] = 1 if f == "is_conv" else -7.0       # the user makes use of what he got
                    for k, l in enumerate(live):
                        g = getters(l[0])
                        if g != said[k]:
                            o.v("trace-left", "%s: the user wrote into the array returned, and object %d changed" % (where, k))
                    o.count("results overwritten by the user")
                results.append((where, r, snap(r)))
                del results[:-6]
            if events:
                o.sigs.append(h(sc["hist"][:n + 1], sc["objs"]))
            o.log(n, err, sorted(after.items()) if not sc["real"] else sorted(after))
    finally:
        pool.stop()
    o.sample = "objects %s; %s" % ([("files" if q["gad"] else "arrays", q["center"]) for q in sc["objs"]],
                                   ["%s%s%s" % (p["op"], "!" + p["bad"] if p.get("bad") else "", "".join("~" + f["kind"] for f in p.get("plan") or [])) for p in sc["hist"]])
    return o.out()


def judge(o, where, op, got, want, viz, cat, stale):
    rt = c14.rtol_for(op, stale)
    if rt is None:
        o.count("not_judged")
        return
    if op["op"] in ops.DUMPS:
        got = c14.only(got, want)
    d = ops.differ(got, want, rt, 1e-9 if stale else 1e-12)
    o.count("answers judged")
    if d:
        o.v("wrong-after-fault", "%s: differs from the answer in a fresh process: %s" % (where, d))


def whole(o, where, op, own, w, viz):
    for f in own:
        p = os.path.join(w.out, f)
        if not os.path.exists(p):
            o.v("incomplete", "%s: returned, but %s is missing" % (where, f))
        elif op["op"] in ops.PLOTS and not plots.complete(p):
            o.v("incomplete", "%s: returned, but %s is incomplete" % (where, f))
    o.count("files judged whole", len(own))


def shrinks(sc):
    for c in shrink_list(sc["hist"], keep=1):
        yield dict(sc, hist=c)
    if sc["pool"]["faults"]:
        yield dict(sc, pool=dict(sc["pool"], faults=[]))
    for i, q in enumerate(sc["hist"]):
        rep = lambda **k: dict(sc, hist=sc["hist"][:i] + [dict(q, **k)] + sc["hist"][i + 1:])
        for c in shrink_list(q.get("plan") or []):
            yield rep(plan=c)
        if q.get("sel") and len(q["sel"]) > 1:
            for c in shrink_list(q["sel"], keep=1):
                yield rep(sel=c)
        if q.get("scribble"):
            yield rep(scribble=False)
    if len(sc["objs"]) > 1 and all(q["obj"] == 0 for q in sc["hist"]):
        yield dict(sc, objs=sc["objs"][:1])


def pin(sc, trace):
    return sc
