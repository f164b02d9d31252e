"""C10: dumped shape catalogues under crashes and failing disks."""
import copy, os, shutil, warnings
import numpy as np
from sim import fs, halos, models, omp
from sim.util import *
from checks import c01, c02

ID, LEVEL = "C10", "exploration"
TECHNIQUE = "deterministic simulation of process lives on a simulated disk: seeded crashes, torn and failing writes at numbered file operations, restart with only the files surviving, differential against the catalogue computed without any dump"
NOTE = ("Sampled histories of up to 6 process lives; a crash is the end of the process (what the kernel has accepted survives), not a power failure; "
        "concurrent dumps by two processes into one folder are not covered.")
LIBS = ["simomp", "simfs"]
RUNS, RUNS_THOROUGH = 1200, 8000
TIME_UNIT = "simulated file operations"
RULE = ("One case = one seeded catalogue and a history of process lives, each of which dumps or asks for catalogues while the disk follows a fault plan. "
        "Distinct: different (history, sequence of disk operations) by hash; counted only if a fault hit or a dump completed and was asked for again.")
REAL = ["dumpShapeCat*/dumpShapeVelCat*/getShapeCat*/numpy savetxt/loadtxt, Python file I/O", "shape algorithms (one thread)"]
STUB = ["disk (libsimfs.so below the catalogue folder)", "process death (_exit at the operation)"]
ASSUMPTIONS = ["operations the kernel acknowledged survive the process"]

preload = c01.preload
OUT = [["Mpc/h", "E+10Msun/h"], ["Mpc/h", "E+10Msun/h"], ["kpc", "Msun"], ["kpc/h", "Msun/h"], [1.5e24, 3.0e40]]
KINDS = ["local", "global", "vlocal", "vglobal"]


def gen_plan(rng):
    if rng.random() < 0.35:
        return []
    n = rng.choice([1, 1, 1, 2])
    plan = []
    for _ in range(n):
        k = rng.choice(["crash", "crash", "crash-after", "torn", "torn", "error", "full", "full", "short", "broken"])
        mask = {"torn": fs.WRITE, "short": fs.WRITE, "full": fs.WRITE | fs.MKDIR}.get(k, rng.choice([0xff, 0xff, fs.WRITE, fs.OPEN | fs.WRITE, fs.RENAME | fs.UNLINK | fs.MKDIR, fs.READ]))
        plan.append({"at": rng.randint(1, rng.choice([4, 20, 20, 30, 60])), "kind": k, "mask": mask, "errno": "ENOSPC" if k == "full" else rng.choice(["EIO", "EACCES", "EDQUOT", "EROFS"]), "frac": round(rng.random(), 2)})
    return plan


def gen(rng, tier, i):
    gad = rng.random() < 0.4
    spec = halos.gen_spec(rng, nobj=rng.choice([1, 1, 2, 2, 3, 4]), max_n=45, with_vel=gad, kinds=["ell"] * 6 + ["tiny", "offset", "axis", "plane", "r200zero"])
    n = len(spec["objs"])
    sels = [list(range(n)), rng.sample(range(n), rng.randint(1, n))]
    katz = []
    for _ in range(2):
        k = halos.gen_katz(rng)
        k.update(wall=rng.choice([20, 50]), min=rng.choice([3, 5]))
        k["R"] = k["R"][:rng.choice([1, 1, 2, 3])]
        katz.append(k)
    lives = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append({"op": rng.choice(["dump", "dump", "get"]), "kind": rng.choice(KINDS if gad else KINDS[:2]), "sel": rng.choice([0, 0, 0, 1]), "katz": rng.choice([0, 0, 0, 1])})
        if rng.random() < 0.5:          # stay with one kind, so that lives meet each other's files
            for p in ops:
                p["kind"] = "global" if i % 2 else "local"
        lives.append({"ops": ops, "plan": gen_plan(rng), "out": rng.choice([0, 0, 1, 2, 3, 4]), "cwd": rng.choice([0, 0, 1])})
    return {"spec": spec, "gadget": gad, "center": rng.choice(["mode", "com"]), "sels": sels, "katz": katz, "lives": lives, "dest": rng.choice(["abs", "abs", "rel", "deep", "slash"]),
            "files": 1, "ptype": rng.choice([["dm", 1], ["stars", 4]]), "time": 1.0, "rdef": "Rvir", "lay": rng.getrandbits(32)}


def dest_of(sc, work):
    return {"abs": work + "/cats", "rel": "cats", "deep": work + "/cats/a/b", "slash": work + "/cats/"}[sc["dest"]]


def open_object(sc, cat, work, dest, out):
    import cosmic_profiles as cp
    omp.configure({"policy": omp.SEQ, "threads": 1})
    c01.units()
    cp.updateOutUnitSystem(OUT[out][0], OUT[out][1], "km/s", 0.6774)
    if sc["gadget"]:
        return cp.DensShapeProfsGadget(work + "/snap/snap_035", work + "/groups", sc["ptype"][0], "035", work + "/viz", dest, RVIR_OR_R200="Rvir", MIN_NUMBER_PTCS=5, CENTER=sc["center"])
    return cp.DensShapeProfs(cat.x, cat.m, cat.idx, cat.r200, cat.L, "035", work + "/viz", dest, MIN_NUMBER_PTCS=5, CENTER=sc["center"])


def ask(obj, sc, p, op):
    kc = halos.katz_config(sc["katz"][p["katz"]])
    name = {"get": {"local": "getShapeCatLocal", "global": "getShapeCatGlobal", "vlocal": "getShapeCatVelLocal", "vglobal": "getShapeCatVelGlobal"},
            "dump": {"local": "dumpShapeCatLocal", "global": "dumpShapeCatGlobal", "vlocal": "dumpShapeVelCatLocal", "vglobal": "dumpShapeVelCatGlobal"}}[op][p["kind"]]
    return getattr(obj, name)(list(sc["sels"][p["sel"]]), kc)


def life(fn):
    """one process life -> ('ok', value) | ('exc', text) | ('died',) ; like util.isolated, with simulated crashes"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                out = ("ok", fn(lambda rec: os.write(w, (lambda b: len(b).to_bytes(8, "little") + b)(pickle.dumps(rec)))))
            except Exception as e:
                out = ("exc", exc_text(e))
            b = pickle.dumps(out)
            b = len(b).to_bytes(8, "little") + b
            o = 0
            while o < len(b):
                o += os.write(w, b[o:o + 65536])
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    recs, k = [], 0
    while k + 8 <= len(buf):
        n = int.from_bytes(buf[k:k + 8], "little")
        if k + 8 + n > len(buf):
            break
        recs.append(pickle.loads(buf[k + 8:k + 8 + n]))
        k += 8 + n
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st)), recs
    c = os.WEXITSTATUS(st)
    if c in (97, 98):
        os._exit(c)
    if c == fs.CRASHED:
        return ("died",), recs
    if c or not recs:
        raise RuntimeError("a process life ended with status %d" % c)
    return recs[-1], recs[:-1]


def compare(got, want):
    """None or what differs; written precision is 8 significant digits"""
    if got is None or got.shape != want.shape:
        return "shape %s, expected %s" % (None if got is None else got.shape, want.shape)
    for f in ("d", "q", "s", "is_conv", "major", "inter", "minor"):
        if not same_num(got[f], want[f], 3e-7, 0.0 if f in ("d", "q", "s") else 1e-9):
            k = np.argwhere(~(np.isclose(np.float64(got[f]), np.float64(want[f]), rtol=3e-7, atol=0, equal_nan=True)))[0]
            return "%s%s = %r, expected %r" % (f, k.tolist(), got[f][tuple(k)], want[f][tuple(k)])
    return None


FILES = ["d", "q", "s", "minor", "inter", "major", "m", "centers"]


def files_whole(dest, kind, suffix, n, want):
    """after a completed dump: eight files, one row per object; masses and centres are those of the objects, in output units"""
    held = {}
    for f in FILES:
        fn = "%s/%s_%s%s035.txt" % (dest, f, kind.lstrip("v"), suffix)
        if not os.path.exists(fn):
            return "%s was not written" % os.path.basename(fn)
        try:
            rows = np.loadtxt(fn, ndmin=1 if f == "m" else 2)
        except Exception as e:
            return "%s cannot be read: %s" % (os.path.basename(fn), e)
        if len(rows) != n:
            return "%s holds %d rows for %d objects" % (os.path.basename(fn), len(rows), n)
        held[f] = rows
    m, c, box = want
    if not same_num(held["m"], m, 1e-6):
        return "m_%s holds %s, the objects weigh %s" % (kind, held["m"].tolist(), m.tolist())
    off = held["centers"] - c if held["centers"].shape == c.shape else np.full(1, np.inf)
    if box:
        off = off - box * np.round(off / box)
    if np.any(np.abs(off) > 1e-5 * np.nanmax(np.append(np.abs(c), box))):      # NaN where the model does not judge
        return "centers_%s holds %s, the objects are at %s" % (kind, held["centers"].tolist(), c.tolist())
    return None


def run(sc, work):
    o = Obs()
    warnings.simplefilter("ignore")
    cat = halos.make(sc["spec"])
    if sc["gadget"]:
        c01.units()
        cat = c02.write(sc, cat, work)
        for s in sc["sels"]:
            s[:] = [p for p in s if p < len(cat.idx)]
    dest = dest_of(sc, work)
    cwds = [work + "/w0", work + "/w1"]
    [os.makedirs(c, exist_ok=True) for c in cwds]
    want = {}

    def fresh(p, out):
        key = (p["kind"], p["sel"], p["katz"], out)
        if key not in want:
            def f(emit):
                return ask(open_object(sc, cat, work, work + "/nowhere", out), sc, p, "get")
            k, _ = life(f)
            if k[0] != "ok":
                raise Unsupported("reference computation failed: %s" % (k,))
            want[key] = k[1]
        return want[key]

    def places(p, out):
        key = ("places", p["sel"], out)
        if key not in want:
            def f(emit):
                from cosmic_profiles.common import config
                obj = open_object(sc, cat, work, work + "/nowhere", out)
                sel = sc["sels"][p["sel"]]
                cc = []
                for i in sel:
                    xu = models.unwrap(cat.x[cat.idx[i]], cat.L)
                    c, mar = models.center(xu, cat.m[cat.idx[i]], sc["center"])
                    cc.append(models.fold(c, cat.L) if models.extent_ok(xu, cat.L) and mar > 1e-5 else np.full(3, np.nan))
                return np.array(obj.getMassesCenters(list(sel))["mass"], float).reshape(-1), np.array(cc) * config.getLMVInternal()[0] / config.OutUnitLength_in_cm, cat.L * config.getLMVInternal()[0] / config.OutUnitLength_in_cm
            k, _ = life(f)
            if k[0] != "ok":
                raise Unsupported("reference computation failed: %s" % (k,))
            want[key] = k[1]
        return want[key]
    ops, dumped = 0, set()
    for li, l in enumerate(sc["lives"]):
        cwd = cwds[l["cwd"]]
        root = os.path.join(cwd, "cats") if sc["dest"] == "rel" else work + "/cats"
        full = os.path.join(cwd, dest)

        where = {p["sel"]: places(p, l["out"]) for p in l["ops"] if p["op"] == "dump"}

        def go(emit):
            os.chdir(cwd)
            obj = open_object(sc, cat, work, dest, l["out"])
            fs.start(root, l["plan"])
            for k, p in enumerate(l["ops"]):
                emit(("begin", k, fs.hits()))
                try:
                    r = ask(obj, sc, p, p["op"])
                    fs.lib().simfs_stop()
                    bad = None
                    if p["op"] == "dump":
                        suf = "_" if not sc["gadget"] else "_%s%s_" % ("v" if p["kind"][0] == "v" else "", sc["ptype"][0])
                        bad = files_whole(full, p["kind"], suf, len(sc["sels"][p["sel"]]), where[p["sel"]])
                    emit(("done", k, r, fs.hits(), bad))
                    fs.lib().simfs_resume()
                except Exception as e:
                    emit(("raised", k, exc_text(e), fs.hits()))
            return fs.count(), fs.hash(), fs.hits()
        end, recs = life(go)
        label = "life %d (%s)" % (li, l["plan"] or "no faults")
        if end[0] == "signal":
            o.v("died-signal-%d" % end[1], label); break
        if end[0] == "exc":
            o.v("exception", "%s: %s" % (label, end[1])); break
        hits = end[1][2] if end[0] == "ok" else {"crash": 1}
        for k, n in hits.items():
            o.count("fault:" + {"crash": "process death", "broken": "disk dead from an operation on", "full": "disk full", "error": "operation failed", "short": "short write"}.get(k, k), n)
        if end[0] == "ok":
            ops += end[1][0]
        for rec in recs:
            if rec[0] == "begin":
                continue
            p = l["ops"][rec[1]]
            who = "%s, %s %s of selection %s in units %s" % (label, p["op"], p["kind"], sc["sels"][p["sel"]], OUT[l["out"]])
            if rec[0] == "raised":
                if not rec[3]:
                    o.v("failed-without-fault", "%s raised %s" % (who, rec[2]))
                o.count("operations refused under fault")
            elif p["op"] == "dump":
                o.count("dumps completed")
                dumped.add((p["kind"], p["sel"], p["katz"]))
                if rec[4]:
                    o.v("incomplete-dump", "%s returned, but %s" % (who, rec[4]))
            else:
                e = compare(rec[2], fresh(p, l["out"]))
                o.count("catalogues judged")
                if (p["kind"], p["sel"], p["katz"]) in dumped:
                    o.count("catalogues asked for after their dump")
                if e:
                    o.v("wrong-catalogue", "%s: %s" % (who, e))
        o.log(li, end[0], [(r[0], r[1], r[2] if r[0] == "done" and r[2] is not None else None) for r in recs])
        if hits or end[0] == "died" or dumped:
            o.sigs.append(h(sc["lives"][:li + 1], end[0], end[1][1] if end[0] == "ok" else len(recs)))
        if o.viol:
            break
    if not o.viol:      # the disk is well again: everything can be asked for and dumped
        l = {"out": sc["lives"][-1]["out"], "cwd": sc["lives"][-1]["cwd"]}
        asked = []
        for x in sc["lives"]:
            for p in x["ops"]:
                q = (p["kind"], p["sel"], p["katz"])
                if q not in asked:
                    asked.append(q)
        os.chdir(cwds[l["cwd"]])
        where = {p[1]: places({"sel": p[1]}, l["out"]) for p in asked}

        def last(emit):
            obj = open_object(sc, cat, work, dest, l["out"])
            res = []
            for kind, sel, katz in asked:
                p = {"kind": kind, "sel": sel, "katz": katz}
                res.append(("as left", p, ask(obj, sc, p, "get")))
                ask(obj, sc, p, "dump")
                suf = "_" if not sc["gadget"] else "_%s%s_" % ("v" if kind[0] == "v" else "", sc["ptype"][0])
                res.append(("files", p, files_whole(os.path.join(cwds[l["cwd"]], dest), kind, suf, len(sc["sels"][sel]), where[sel])))
                res.append(("after dumping it again", p, ask(obj, sc, p, "get")))
            return res
        end, _ = life(last)
        if end[0] != "ok":
            o.v("unusable-after-recovery", "after the faults stopped: %s" % (end[1:],))
        else:
            for what, p, r in end[1]:
                e = r if what == "files" else compare(r, fresh(p, l["out"]))
                if e:
                    o.v("wrong-after-recovery", "%s selection %s, %s: %s" % (p["kind"], sc["sels"][p["sel"]], what, e))
            o.count("catalogues judged after recovery", len(asked))
    o.simtime = ops
    o.sample = "%s, %d objects, radii %s, %s; lives %s" % ("Gadget files" if sc["gadget"] else "arrays", len(sc["spec"]["objs"]), [len(k["R"]) for k in sc["katz"]], sc["dest"],
                                                           [([p["op"] + " " + p["kind"] for p in l["ops"]], [(f["kind"], f["at"]) for f in l["plan"]]) for l in sc["lives"]])
    return o.out()


def shrinks(sc):
    for c in shrink_list(sc["lives"], keep=1):
        yield dict(sc, lives=c)
    for i, l in enumerate(sc["lives"]):
        for c in shrink_list(l["ops"], keep=1):
            yield dict(sc, lives=sc["lives"][:i] + [dict(l, ops=c)] + sc["lives"][i + 1:])
        for c in shrink_list(l["plan"]):
            yield dict(sc, lives=sc["lives"][:i] + [dict(l, plan=c)] + sc["lives"][i + 1:])
        if l["out"]:
            yield dict(sc, lives=sc["lives"][:i] + [dict(l, out=0)] + sc["lives"][i + 1:])
    if sc["dest"] != "abs":
        yield dict(sc, dest="abs")
    for i, k in enumerate(sc["katz"]):
        if len(k["R"]) > 1:
            c = copy.deepcopy(sc); c["katz"][i]["R"] = k["R"][:1]
            yield c
    n = len(sc["spec"]["objs"])
    for s, drop in halos.shrink_spec(sc["spec"]):
        c = dict(sc, spec=s)
        if drop is not None:
            c["sels"] = [[p - (p > drop) for p in l if p != drop] for l in sc["sels"]]
            if not all(c["sels"]):
                continue
        yield c
