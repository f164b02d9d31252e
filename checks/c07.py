"""C07: snapshot readers (HDF5, binary format 1 and 2) under damaged files and failing disks."""
import copy, os, random, shutil
import numpy as np
from sim import fs, gadget_io
from sim.util import *

ID, LEVEL = "C07", "exploration"
TECHNIQUE = "deterministic simulation of the disk: seeded faults at numbered file operations and seeded damage to snapshot files, differential against the written contents"
NOTE = ("Sampled snapshots (1 to 4 files, all formats, both byte orders) and fault plans; a returned array is judged, a raised exception or SystemExit counts as visible failure; "
        "files replaced by intact files of another snapshot with the same counts cannot be told apart by any reader and are not injected.")
LIBS = ["simomp", "simfs"]
RUNS, RUNS_THOROUGH = 4500, 40000
TIME_UNIT = "simulated file operations"
RULE = ("One case = one seeded snapshot and a sequence of reads, some with files damaged or disk operations failing, followed by reads after repair. "
        "Distinct: different (snapshot layout, fault plan, sequence of disk operations) by hash; only cases with a fault that actually hit are counted.")
REAL = ["readgadget.read_block/read_field/header", "readsnap", "DensShapeProfsGadget.getXYZMasses/getVelXYZ/getHeader", "h5py/HDF5, numpy file I/O"]
STUB = ["disk (libsimfs.so injects errors and short transfers below the scratch directory)"]
ASSUMPTIONS = ["a read error is reported to the process (no silent bit rot)"]

BLOCKS = ["POS ", "VEL ", "ID  ", "MASS"]
UNITS_L = ["Mpc", "kpc", "Mpc/h", "kpc/h", 1.5e24]
UNITS_M = ["Msun", "Msun/h", "E+10Msun", 3.0e43]
UNITS_V = ["km/s", 2.0e5]
CGS = {"Mpc": 3.085678e24, "kpc": 3.085678e21, "Msun": 1.989e33, "E+10Msun": 1.989e43, "km/s": 1e5}


def preload():
    from checks import c01
    c01.preload()


def gen_read(rng):
    how = rng.choice(["block"] * 6 + ["field", "header", "gadget"])
    pts = rng.choice([[1], [1], [0], [4], [5], [0, 1], [1, 4], [4, 0], [0, 1, 2, 3, 4, 5]])
    return {"how": how, "block": rng.choice(BLOCKS), "pts": pts, "fault": None}


def gen_fault(rng, nfiles):
    k = rng.choice(["truncate", "truncate", "missing", "onerow", "foreign", "norows", "lostset", "lostset", "disk", "disk", "disk", "disk", "empty"])
    f = {"kind": k, "file": rng.randrange(nfiles), "frac": round(rng.random(), 3), "pt": rng.choice([0, 1, 4, 1])}
    if k == "disk":
        n = rng.choice([1, 1, 2])
        f["plan"] = [{"at": rng.randint(1, rng.choice([12, 60, 250])), "kind": rng.choice(["error", "error", "short", "broken"]), "mask": rng.choice([fs.READ, fs.READ, fs.OPEN | fs.READ]),
                      "errno": rng.choice(["EIO", "EIO", "EMFILE", "ESTALE", "EINTR"]), "frac": round(rng.random(), 2)} for _ in range(n)]
        for p in f["plan"]:
            if p["errno"] in ("EMFILE",):
                p["mask"] = fs.OPEN
            if p["errno"] == "EINTR":      # libc and HDF5 retry or report it; only a short count is harmless
                p["kind"] = "error"
    return f


def gen(rng, tier, i):
    nf = rng.choice([1, 1, 2, 3, 4, 12])
    fmt = rng.choice(["hdf5", "hdf5", "bin1", "bin2"])
    types = sorted(set([1] + rng.sample([0, 2, 3, 4, 5], rng.choice([0, 1, 2, 3]))))
    counts = {}
    for t in types:
        n = rng.choice([0, 1, 2, 3, 5, 17] if t != 1 else [1, 2, 4, 9, 40])
        c = gadget_io.split_counts(n, nf, rng)
        if rng.random() < 0.3:
            c = [0] * nf
            c[rng.randrange(nf)] = n
        counts[str(t)] = c
    if fmt != "hdf5":
        for j in range(nf):     # Gadget leaves out a block nobody has data for: every file gets a particle
            if not counts["1"][j]:
                counts["1"][j] = 1
    mt = {}
    for t in types:
        if rng.random() < 0.3:
            mt[str(t)] = round(rng.uniform(0.1, 9), 3)
    if fmt != "hdf5" and "1" in mt:
        del mt["1"]             # ... and every file a MASS block
    reads = []
    for _ in range(rng.choice([2, 4, 6])):
        r = gen_read(rng)
        if rng.random() < 0.5:
            r["fault"] = gen_fault(rng, nf)
            if r["fault"]["kind"] == "foreign":
                # a whole file of another snapshot is only out of place next to others; read alone it is intact
                if nf == 1 or r["how"] == "field":
                    r["fault"]["kind"] = "truncate"
                elif r["fault"]["file"] == 0:
                    r["fault"]["file"] = nf - 1
        reads.append(r)
    return {"fmt": fmt, "files": nf, "counts": counts, "mt": mt, "mt_also_dataset": rng.random() < 0.5, "f4": rng.random() < 0.4, "id": rng.choice(["u4", "u8", "u8", "i8"]) if fmt == "hdf5" else rng.choice(["u4", "u8"]),
            "bigid": rng.random() < 0.5, "swap": rng.random() < 0.3, "drop": rng.random() < 0.6, "time": rng.choice([1.0, 0.5, 0.25, 0.8, 0.999]), "data": rng.getrandbits(32), "full": rng.random() < 0.3 and nf == 1,
            "units": [rng.choice(UNITS_L), rng.choice(UNITS_M), rng.choice(UNITS_V)], "h": rng.choice([0.6774, 0.5, 0.7]), "reads": reads}


def cgs(u, h):
    if isinstance(u, str):
        return CGS[u.split("/h")[0]] / h if u.endswith("/h") else CGS[u]
    return u


def parts_of(sc, salt=0):
    rng = np.random.RandomState((sc["data"] + salt) % 2**32)
    parts, nid = {}, 0
    for t, c in sc["counts"].items():
        n = sum(c)
        base = (2**53 + 1 if sc["bigid"] and sc["id"] != "u4" else 2**31 + 5 if sc["bigid"] else 1)
        dt = "f4" if sc["f4"] and sc["fmt"] == "hdf5" else "f8"
        d = dict(x=rng.uniform(0, 50, (n, 3)).astype(dt), v=rng.normal(0, 300, (n, 3)).astype(dt), m=rng.uniform(1, 5, n).astype(dt), id=base + nid + np.arange(n) * 2 + salt, counts=c)
        nid += 1000
        parts[t] = d
    return parts


def write(sc, dest, salt=0):
    parts = parts_of(sc, salt)
    mt = {int(k): v for k, v in sc["mt"].items()}
    base = dest + "/snap_035"
    if sc["fmt"] != "hdf5":
        names = gadget_io.write_binary(base, parts, 50.0, sc["files"], int(sc["fmt"][3]), sc["swap"], sc["time"], masstable=mt, iddtype=sc["id"])
        return base, names, parts
    import h5py
    dt = "f4" if sc["f4"] else "f8"
    names = gadget_io.write_snapshot(base, parts, 50.0, sc["files"], time=sc["time"], masstable=mt, dtype=dt, iddtype=sc["id"])
    for i, n in enumerate(names):
        with h5py.File(n, "r+") as f:
            for t, d in parts.items():
                if int(t) in mt and not sc["mt_also_dataset"]:
                    del f["PartType%s/Masses" % t]
                if sc["drop"] and d["counts"][i] == 0:
                    del f["PartType%s" % t]
    return (names[0] if sc["full"] else base), names, parts


def expect(sc, parts, block, pts, lo=None):
    """what the files hold for that block, converted to internal units; lo: only that file"""
    h_ = sc["h"]
    ul, um, uv = (cgs(u, h_) for u in sc["units"])
    out = []
    for t in pts:
        d = parts.get(str(t))
        if d is None:
            continue
        sl = slice(None) if lo is None else slice(sum(d["counts"][:lo]), sum(d["counts"][:lo + 1]))
        if block == "POS ":
            out.append(np.float64(d["x"][sl]) * (ul / (3.085678e24 / h_)))
        elif block == "VEL ":
            out.append(np.float64(d["v"][sl]) * (uv / 1e5) * np.sqrt(sc["time"]))
        elif block == "ID  ":
            out.append(np.array([int(x) for x in d["id"][sl]], dtype=object))
        else:
            in_table = str(t) in sc["mt"] and not (sc["fmt"] == "hdf5" and sc["mt_also_dataset"])
            m = np.full(len(d["m"][sl]), sc["mt"][str(t)]) if in_table else np.float64(d["m"][sl])
            out.append(m * (um / (1.989e43 / h_)))
    if not out:
        return np.zeros((0, 3) if block in ("POS ", "VEL ") else 0)
    return np.concatenate(out)


def header_expect(sc):
    tot = np.zeros(6, int)
    for t, c in sc["counts"].items():
        tot[int(t)] = sum(c)
    mt = np.zeros(6)
    for t, m in sc["mt"].items():
        mt[int(t)] = m
    return dict(time=sc["time"], redshift=1.0 / sc["time"] - 1, boxsize=50.0, filenum=sc["files"], omega_m=0.3089, omega_l=0.6911, hubble=0.6774, nall=tot, massarr=mt, cooling=0,
                npart=np.array([sc["counts"].get(str(t), [0] * sc["files"])[0] for t in range(6)]), Hubble=100 * np.sqrt(0.3089 / sc["time"]**3 + 0.6911))


def damage(sc, f, names, dest):
    """files as a crash, a lost copy or a mix-up leaves them; returns what to undo"""
    import h5py
    n = names[f["file"]]
    shutil.copy(n, dest + "/keep")
    if f["kind"] == "truncate":
        with open(n, "r+b") as g:
            g.truncate(int(os.path.getsize(n) * f["frac"]))
    elif f["kind"] == "empty":
        open(n, "wb").close()
    elif f["kind"] == "missing":
        os.unlink(n)
    elif f["kind"] == "lostset":
        if sc["fmt"] == "hdf5":
            with h5py.File(n, "r+") as g:
                for t in [t for t in g if t.startswith("PartType")]:
                    for k in sorted(g[t])[int(f["frac"] * 4)::2]:
                        if k == "Masses" and t[8:] in sc["mt"]:
                            continue        # then the header's mass table answers
                        del g[t][k]
        else:
            with open(n, "r+b") as g:
                g.truncate(os.path.getsize(n) - 300)
    elif f["kind"] in ("onerow", "norows"):
        if sc["fmt"] == "hdf5":
            with h5py.File(n, "r+") as g:
                for t in list(g):
                    if t.startswith("PartType"):
                        for k in list(g[t]):
                            a = g[t][k][:]
                            del g[t][k]
                            g[t][k] = a[:1 if f["kind"] == "onerow" else 0]
        else:
            with open(n, "r+b") as g:
                g.truncate(os.path.getsize(n) - 9)
    elif f["kind"] == "foreign":     # this file belongs to a run with other particle numbers
        sc2 = copy.deepcopy(sc)
        for t in sc2["counts"]:
            sc2["counts"][t] = [x + (1 if j == f["file"] or x else 0) for j, x in enumerate(sc2["counts"][t])]
        os.makedirs(dest + "/other", exist_ok=True)
        _, names2, _ = write(sc2, dest + "/other", 1)
        shutil.copy(names2[f["file"]], n)


def repair(f, names, dest):
    shutil.copy(dest + "/keep", names[f["file"]])


def call(sc, r, base, names):
    from cosmic_profiles.gadget import readgadget
    if r["how"] == "field":
        i = sum(r["pts"]) % len(names)
        return readgadget.read_field(names[i], r["block"], r["pts"][0])
    if r["how"] == "header":
        h_ = readgadget.header(base)
        return {k: np.array(getattr(h_, k)) for k in header_expect(sc)}
    if r["how"] == "gadget":
        from cosmic_profiles import DensShapeProfsGadget
        obj = DensShapeProfsGadget(base, os.path.dirname(names[0]) + "/groups", "dm", "035", "viz", "cat", MIN_NUMBER_PTCS=1, CENTER="com")
        return list(obj.getXYZMasses()) + [obj.getVelXYZ()]
    return readgadget.read_block(base, r["block"], list(r["pts"]))


def exact(sc, got, want, block):
    got = np.asarray(got)
    if got.shape != want.shape:
        return "shape %s, written %s" % (got.shape, want.shape)
    if block == "ID  ":
        if got.dtype.kind not in "iu":
            return "IDs as %s" % got.dtype
        return None if [int(x) for x in got] == list(want) else "IDs %s, written %s" % ([int(x) for x in got][:8], list(want)[:8])
    tol = 1e-6 if sc["f4"] and sc["fmt"] == "hdf5" else 1e-12
    bad = ~(np.abs(got - want) <= tol * np.abs(want))
    return None if not bad.any() else "%d of %d values differ, e.g. %r for %r" % (bad.sum(), bad.size, got[bad][0], want[bad][0])


def judge(sc, r, got, parts, names):
    if r["how"] == "header":
        for k, w in header_expect(sc).items():
            if np.shape(got[k]) != np.shape(w) or not np.allclose(np.float64(got[k]), np.float64(w), rtol=1e-12, atol=0):
                return "header %s = %s, written %s" % (k, got[k], w)
        return None
    if r["how"] == "gadget":
        for b, g in zip(("POS ", "MASS", "VEL "), got):
            e = exact(sc, g, expect(sc, parts, b, [1]), b)
            if e:
                return "%s: %s" % (b, e)
        return None
    if r["how"] == "field":
        i = sum(r["pts"]) % len(names)
        return exact(sc, got, expect(sc, parts, r["block"], r["pts"][:1], i), r["block"])
    return exact(sc, got, expect(sc, parts, r["block"], r["pts"]), r["block"])


def impossible(sc, r):
    """the files hold nothing to answer with"""
    pts = r["pts"][:1] if r["how"] == "field" else r["pts"]
    return r["how"] in ("block", "field") and any(not sum(sc["counts"].get(str(t), [0])) for t in pts)


def run(sc, work):
    from cosmic_profiles.common import config
    o = Obs()
    config.updateInUnitSystem(sc["units"][0], sc["units"][1], sc["units"][2], sc["h"])
    config.updateOutUnitSystem("Mpc/h", "E+10Msun/h", "km/s", sc["h"])
    dest = work + "/d"
    os.makedirs(dest)
    base, names, parts = write(sc, dest)
    n1 = sum(sc["counts"]["1"])
    typ = [0, n1, 0, 0, 0, 0]
    gadget_io.write_fof(dest + "/groups", [{"len": typ, "rvir": 1.0, "r200": 1.0, "subs": [typ]}], [1], [1])
    ops = 0
    for ri, r in enumerate(sc["reads"]):
        f = r["fault"]
        label = "read %d (%s %s types %s)%s" % (ri, r["how"], r["block"], r["pts"], "" if not f else " with " + (f["kind"] if f["kind"] != "disk" else "disk faults %s" % f["plan"]))
        if f and f["kind"] != "disk":
            damage(sc, f, names, dest)
        fs.start(dest, f["plan"] if f and f["kind"] == "disk" else [])
        got, err = None, None
        try:
            got = call(sc, r, base, names)
        except (Exception, SystemExit) as e:
            err = exc_text(e)
        ops += fs.count()
        hit = fs.hits()
        fs.stop()
        if os.environ.get("SIM_DBG"):
            print(label, err, hit, fs.count())
        hurt = bool(f) and (f["kind"] != "disk" or bool(hit))
        for k, n in hit.items():
            o.count("fault:disk " + {"broken": "dead from an operation on"}.get(k, k), n)
        if f and f["kind"] != "disk":
            o.count("fault:file " + f["kind"])
        if err is None:
            e = judge(sc, r, got, parts, names)
            if e:
                o.v("wrong-data" if hurt else "wrong-contents", "%s returned although it cannot be right: %s" % (label, e))
            o.count("reads under fault that returned the full data" if hurt else "reads without fault")
        elif not hurt:
            if impossible(sc, r):
                o.count("reads of a type that has no particles, refused")
            else:
                o.v("intact-refused", "%s: the files are intact but the read failed: %s" % (label, err))
        else:
            o.count("reads under fault that failed visibly")
        o.log(ri, err and err.split(":")[0], hit, None if got is None or r["how"] == "header" else [np.asarray(x) for x in (got if isinstance(got, list) else [got])])
        if hurt:
            o.sigs.append(h(sc["fmt"], sc["counts"], f, r["how"], r["block"], r["pts"], fs.hash()))
        if f and f["kind"] != "disk":
            repair(f, names, dest)
        if hurt and not o.viol:
            try:
                e = judge(sc, r, call(sc, r, base, names), parts, names)
                if e:
                    o.v("stale-after-repair", "%s, asked again after the repair: %s" % (label, e))
            except (Exception, SystemExit) as e:
                if not impossible(sc, r):
                    o.v("broken-after-repair", "%s, asked again after the repair: %s" % (label, exc_text(e)))
            o.count("reads repeated after repair")
        if o.viol:
            break
    o.simtime = ops
    o.sample = "%s, %d files%s, particles per type and file %s, mass table %s, reads %s" % (
        sc["fmt"], sc["files"], ", foreign byte order" if sc["swap"] and sc["fmt"] != "hdf5" else "", sc["counts"], sc["mt"],
        [(r["how"], r["block"].strip(), (r["fault"] or {}).get("kind")) for r in sc["reads"]])
    return o.out()


def shrinks(sc):
    for c in shrink_list(sc["reads"], keep=1):
        yield dict(sc, reads=c)
    for i, r in enumerate(sc["reads"]):
        if r["fault"]:
            c = copy.deepcopy(sc["reads"]); c[i]["fault"] = None
            yield dict(sc, reads=c)
            if len(r["fault"].get("plan", [])) > 1:
                for j in range(len(r["fault"]["plan"])):
                    c = copy.deepcopy(sc["reads"]); del c[i]["fault"]["plan"][j]
                    yield dict(sc, reads=c)
        if len(r["pts"]) > 1:
            for t in r["pts"]:
                c = copy.deepcopy(sc["reads"]); c[i]["pts"] = [t]
                yield dict(sc, reads=c)
    for t in sc["counts"]:
        if t != "1":
            c = copy.deepcopy(sc); del c["counts"][t]; c["mt"].pop(t, None)
            yield c
        if sum(sc["counts"][t]) > 2:
            c = copy.deepcopy(sc); c["counts"][t] = [min(1, x) for x in sc["counts"][t]]
            yield c
    if sc["mt"]:
        yield dict(sc, mt={})
    for k, v in (("f4", False), ("bigid", False), ("swap", False), ("time", 1.0), ("units", ["Mpc/h", "E+10Msun", "km/s"]), ("full", False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
