"""Writes Gadget HDF5 snapshots and FoF/SUBFIND group files from plain arrays."""
import os
import numpy as np
import h5py


def split_counts(n, k, rng):
    """n items over k files, possibly unevenly, possibly none"""
    if k == 1:
        return [n]
    cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    e = [0] + cuts + [n]
    return [e[i + 1] - e[i] for i in range(k)]


def write_snapshot(base, parts, L, files, time=1.0, redshift=None, hubble=0.6774, masstable=None, dtype="f8", iddtype="u8"):
    """parts: {ptype: dict(x, v, m, id, counts=[per file])}; base without .hdf5; files: number.
    m may be None (then masstable counts)"""
    mt = np.zeros(6)
    if masstable:
        for k, v in masstable.items():
            mt[int(k)] = v
    total = np.zeros(6, dtype=np.int64)
    for p, d in parts.items():
        total[int(p)] = len(d["x"])
    off = {p: 0 for p in parts}
    names = []
    for i in range(files):
        fn = base + ".hdf5" if files == 1 else "%s.%d.hdf5" % (base, i)
        names.append(fn)
        with h5py.File(fn, "w") as f:
            h = f.create_group("Header")
            this = np.zeros(6, dtype=np.int32)
            for p, d in parts.items():
                this[int(p)] = d["counts"][i]
            h.attrs["Time"] = float(time)
            h.attrs["Redshift"] = float(1.0 / time - 1.0 if redshift is None else redshift)
            h.attrs["BoxSize"] = float(L)
            h.attrs["NumFilesPerSnapshot"] = files
            h.attrs["Omega0"] = 0.3089
            h.attrs["OmegaLambda"] = 0.6911
            h.attrs["HubbleParam"] = hubble
            h.attrs["MassTable"] = mt
            h.attrs["NumPart_ThisFile"] = this
            h.attrs["NumPart_Total"] = total.astype(np.uint32)
            h.attrs["Flag_Cooling"] = 0
            for p, d in parts.items():
                a, n = off[p], d["counts"][i]
                g = f.create_group("PartType%d" % int(p))
                g["Coordinates"] = np.asarray(d["x"][a:a + n], dtype)
                g["Velocities"] = np.asarray(d["v"][a:a + n], dtype)
                g["ParticleIDs"] = np.asarray(d["id"][a:a + n], iddtype)
                if d["m"] is not None:
                    g["Masses"] = np.asarray(d["m"][a:a + n], dtype)
                off[p] += n
    return names


def write_fof(dest, groups, counts_g, counts_s, prefix="fof_subhalo_tab_035", first=0, drop_empty=False):
    """groups: list of dict(len=[6], rvir, r200, subs=[[6]...]); counts_*: groups/subhalos per file"""
    os.makedirs(dest, exist_ok=True)
    subs = [s for g in groups for s in g["subs"]]
    a = b = 0
    names = []
    for i, (ng, ns) in enumerate(zip(counts_g, counts_s)):
        fn = os.path.join(dest, "%s.%d.hdf5" % (prefix, first + i))
        names.append(fn)
        with h5py.File(fn, "w") as f:
            gs, ss = groups[a:a + ng], subs[b:b + ns]
            if not (drop_empty and ng == 0):
                g = f.create_group("Group")
                g["GroupLenType"] = np.array([x["len"] for x in gs], dtype=np.int32).reshape(ng, 6)
                g["GroupNsubs"] = np.array([len(x["subs"]) for x in gs], dtype=np.int32)
                g["Group_R_TopHat200"] = np.array([x["rvir"] for x in gs], dtype=np.float32)
                g["Group_R_Mean200"] = np.array([x["r200"] for x in gs], dtype=np.float32)
            if not (drop_empty and ns == 0):
                s = f.create_group("Subhalo")
                s["SubhaloLenType"] = np.array(ss, dtype=np.int32).reshape(ns, 6)
        a += ng
        b += ns
    assert a == len(groups) and b == len(subs)
    return names


def layout(cat, rng, ptype, min_ptcs, extra=True):
    """Arrange a catalogue in FoF order.  -> particle order, groups, list of (object number or None) per group,
    expected index lists (per object that passes)"""
    n = len(cat.x)
    used = np.zeros(n, bool)
    for l in cat.idx:
        used[l] = True
    bg = [i for i in range(n) if not used[i]]
    order, groups, exp = [], [], []

    def typ(k):
        t = [0] * 6
        t[ptype] = k
        return t
    for p, l in enumerate(cat.idx):
        while extra and rng.random() < 0.3:     # a halo that must be skipped
            if rng.random() < 0.5:
                k = min(len(bg), rng.randint(0, 6))
                order += bg[:k]; del bg[:k]
                groups.append({"len": typ(k), "rvir": 0.77, "r200": 0.66, "subs": []})
            else:
                k = min(len(bg), rng.randint(0, min(6, max(min_ptcs - 1, 0))))
                order += bg[:k]; del bg[:k]
                groups.append({"len": typ(k), "rvir": 0.77, "r200": 0.66, "subs": [typ(k)] + [typ(0)] * rng.choice([0, 0, 1])})
        start = len(order)
        order += l
        nf = min(len(bg), rng.choice([0, 0, 3])) if extra else 0
        order += bg[:nf]; del bg[:nf]
        if len(l) >= min_ptcs:
            exp.append((p, list(range(start, start + len(l)))))
        subs = [typ(len(l))]
        if nf > 1 and rng.random() < 0.5:
            subs.append(typ(nf - 1))
        groups.append({"len": typ(len(l) + nf), "rvir": float(np.float32(cat.r200[p])), "r200": float(np.float32(cat.r200[p] * 0.9)), "subs": subs})
    order += bg
    return order, groups, exp


def write_binary(base, parts, L, files, fmt=1, swap=False, time=1.0, redshift=None, hubble=0.6774, masstable=None, iddtype="u4", order=("POS ", "VEL ", "ID  ", "MASS")):
    """Gadget format 1 / 2 files; parts as for write_snapshot (all six types in one block, type-major)"""
    e = ">" if swap else "<"
    mt = np.zeros(6)
    for k, v in (masstable or {}).items():
        mt[int(k)] = v
    total = np.zeros(6, np.int64)
    for p, d in parts.items():
        total[int(p)] = len(d["x"])
    off = {p: 0 for p in parts}
    names = []
    for i in range(files):
        fn = base if files == 1 else "%s.%d" % (base, i)
        names.append(fn)
        this = np.zeros(6, np.int64)
        for p, d in parts.items():
            this[int(p)] = d["counts"][i]
        head = (this.astype(e + "i4").tobytes() + mt.astype(e + "f8").tobytes() + np.array([time, 1.0 / time - 1.0 if redshift is None else redshift], e + "f8").tobytes()
                + np.array([0, 0], e + "i4").tobytes() + total.astype(e + "u4").tobytes() + np.array([0, files], e + "i4").tobytes()
                + np.array([L, 0.3089, 0.6911, hubble], e + "f8").tobytes())
        head += b"\0" * (256 - len(head))
        blocks = [("HEAD", head)]
        for b in order:
            raw = b""
            for p in sorted(parts, key=int):
                d = parts[p]
                a, n = off[p], d["counts"][i]
                if b == "POS ":
                    raw += np.asarray(d["x"][a:a + n]).astype(e + "f8").tobytes()
                elif b == "VEL ":
                    raw += np.asarray(d["v"][a:a + n]).astype(e + "f8").tobytes()
                elif b == "ID  ":
                    raw += np.asarray(d["id"][a:a + n]).astype(e + iddtype).tobytes()
                elif mt[int(p)] == 0:
                    raw += np.asarray(d["m"][a:a + n]).astype(e + "f8").tobytes()
            blocks.append((b, raw))
        with open(fn, "wb") as f:
            for name, raw in blocks:
                n = np.array([len(raw)], e + "u4").tobytes()
                if fmt == 2:
                    f.write(np.array([8], e + "u4").tobytes() + name.encode() + np.array([len(raw) + 8, 8], e + "u4").tobytes())
                f.write(n + raw + n)
        for p, d in parts.items():
            off[p] += d["counts"][i]
    return names
