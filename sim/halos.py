"""Seeded particle catalogues.  A catalogue is described by a small JSON spec; arrays are made from it."""
import numpy as np


EXACT = ["axis", "axis0", "plane", "line", "point", "dup"]
"""objects whose coordinates, masses and velocities are short binary fractions, so that sums over them are exact: symmetric about the centre with the axes of
the box as principal axes (axis0: with a particle right at the centre), coplanar, collinear, all at one point, many at one point"""


def gen_spec(rng, nobj=None, max_n=120, period=None, straddle=0.5, with_vel=False, kinds=None):
    L = rng.choice([0.0, 10.0, 10.0, 25.0, 100.0]) if period is None else period
    nobj = nobj or rng.choice([1, 2, 2, 3, 4, 5, 6, 8])
    objs = []
    for _ in range(nobj):
        kind = rng.choice(kinds or ["ell"] * 10 + ["tiny", "r200zero", "big", "cusp", "offset"] + EXACT)
        n = rng.randint(20, max_n)
        if kind == "tiny":
            n = rng.randint(5, 9)
        size = rng.choice([0.2, 0.5, 1.0])
        B = L or 50.0
        c = [rng.uniform(0.2 * B, 0.8 * B) for _ in range(3)]
        if L and rng.random() < straddle:
            for ax in rng.sample([0, 1, 2], rng.choice([1, 1, 2, 3])):
                c[ax] = rng.choice([0.0, L]) + rng.uniform(-0.8, 0.8) * size * rng.choice([0.05, 0.5, 1.0])
        objs.append({"kind": kind, "n": n, "seed": rng.getrandbits(32), "size": size, "c": c, "q": rng.uniform(0.4, 0.95), "s": rng.uniform(0.2, 0.9),
                     "mass": rng.choice(["equal", "mixed"]), "r200": rng.choice([0.8, 1.0, 1.3]) * size, "bulk": rng.choice([0.0, 50.0, 600.0])})
    return {"L": L, "objs": objs, "bg": rng.choice([0, 7, 40]), "shuffle": rng.getrandbits(32), "vel": bool(with_vel)}


def rotation(g):
    A = g.normal(size=(3, 3))
    Q, R = np.linalg.qr(A)
    return Q * np.sign(np.diag(R))


def exact(o, g):
    """positions and velocities of an object of the kinds EXACT"""
    def grid(a, bits):
        return np.round(np.asarray(a) * 2.0 ** bits) / 2.0 ** bits
    n, kind = max(12, o["n"]), o["kind"]
    ax = g.permutation(3)
    scale = np.array([1.0, o["q"], min(o["q"], 0.95) * o["s"]])[ax]

    def cloud(unit, bits):
        if kind in ("axis", "axis0"):
            k = n // 6
            y = np.zeros((6 * k, 3))
            for i in range(6 * k):
                y[i, i % 3] = (1 if i % 6 < 3 else -1) * scale[i % 3] * ((i // 6 + 1) / k) * unit
            y = grid(y, bits)
            return np.vstack([y, np.zeros((1, 3))]) if kind == "axis0" else y
        y = grid(g.normal(size=(n, 3)) * 0.3 * scale * unit, bits)
        if kind == "plane":
            y[:, ax[0]] = 0.0
        elif kind == "line":
            y[:, ax[:2]] = 0.0
        elif kind == "point":
            y[:] = 0.0
        elif kind == "dup":
            y[: g.randint(5, 9)] = 0.0
        return y
    return grid(o["c"], 6) + cloud(o["size"], 10), grid(o["bulk"] * g.normal(size=3), 2) + cloud(100.0, 2)


class Cat:
    """x, m, v: particle arrays (x folded into the box); idx: list of index lists; r200"""


def make(spec):
    L = spec["L"]
    xs, ms, vs, who = [], [], [], []
    r200 = []
    for k, o in enumerate(spec["objs"]):
        g = np.random.RandomState(o["seed"])
        n, size = o["n"], o["size"]
        u = g.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        rad = g.uniform(size=n) ** (1.0 if o["kind"] == "cusp" else 1 / 2.0)
        q, s = o["q"], min(o["q"], 0.95) * o["s"]
        y = u * rad[:, None] * size * np.array([1, q, s])
        R = rotation(g)
        x = y @ R.T + np.array(o["c"])
        w = g.normal(size=(n, 3)) * 100 * np.array([1, 0.8, 0.5])
        v = w @ rotation(g).T + o["bulk"] * g.normal(size=3)
        if o["kind"] == "offset":   # two clumps: centre of mass and mode differ
            x[: n // 4] = x[: n // 4] * 0.2 + (np.array(o["c"]) + R[:, 0] * size * 0.7) * 0.8
        if o["kind"] in EXACT:
            x, v = exact(o, g)
            n = len(x)
        m = np.full(n, 2.0 ** -7 if o["kind"] in EXACT else 0.01) if o["mass"] == "equal" or o["kind"] in EXACT else g.uniform(0.002, 0.02, size=n)
        xs.append(x); ms.append(m); vs.append(v); who += [k] * n
        r = o["r200"]
        if o["kind"] == "r200zero":
            r = 0.0
        elif o["kind"] == "big":
            r = 4 * size
        r200.append(r)
    g = np.random.RandomState(spec["shuffle"] & 0x7fffffff)
    nb = spec["bg"]
    B = L or 50.0
    if nb:
        xs.append(g.uniform(0, B, size=(nb, 3))); ms.append(np.full(nb, 0.01)); vs.append(g.normal(size=(nb, 3)) * 300); who += [-1] * nb
    x, m, v, who = np.vstack(xs), np.hstack(ms), np.vstack(vs), np.array(who)
    if spec.get("order", "shuffle") == "shuffle":
        perm = g.permutation(len(x))
        x, m, v, who = x[perm], m[perm], v[perm], who[perm]
    if L:
        x = np.where(x < 0, x + L, x)
        x = np.where(x >= L, x - L, x)
    c = Cat()
    c.x, c.m, c.v, c.L = np.ascontiguousarray(x), np.ascontiguousarray(m), np.ascontiguousarray(v), L
    c.idx = [np.where(who == k)[0].tolist() for k in range(len(spec["objs"]))]
    if spec.get("order", "shuffle") == "shuffle":
        for l in c.idx:
            p = g.permutation(len(l))
            l[:] = [l[i] for i in p]
    c.r200 = np.array(r200, dtype=np.float64)
    return c


def gen_katz(rng, nmin=3, shell=None):
    nr = rng.choice([1, 2, 3, 4, 6])
    lo = rng.choice([-1.2, -0.8, -0.4])
    R = sorted(10 ** rng.uniform(lo, 0.05) for _ in range(nr))
    R = [r for i, r in enumerate(R) if i == 0 or r > R[i - 1] * 1.02]
    return {"R": R, "tol": rng.choice([1e-1, 1e-2, 1e-2, 1e-3]), "wall": rng.choice([3, 20, 100]), "min": rng.choice([1, nmin, nmin, 5, 5, 10, 10, 25] if nmin == 3 else [nmin, 5, 10, 25]),
            "reduced": rng.random() < 0.4, "shell": (rng.random() < 0.4) if shell is None else shell}


def katz_config(k):
    return {"ROverR200": np.array(k["R"]), "IT_TOL": k["tol"], "IT_WALL": k["wall"], "IT_MIN": k["min"], "REDUCED": k["reduced"], "SHELL_BASED": k["shell"]}


def shrink_spec(spec):
    """smaller catalogues"""
    n = len(spec["objs"])
    for i in range(n):
        if n > 1:
            s = dict(spec); s["objs"] = spec["objs"][:i] + spec["objs"][i + 1:]
            yield s, i
    if spec["bg"]:
        s = dict(spec); s["bg"] = 0
        yield s, None
    for i, o in enumerate(spec["objs"]):
        if o["n"] > 12:
            s = dict(spec); oo = dict(o); oo["n"] = max(10, o["n"] // 2); s["objs"] = spec["objs"][:i] + [oo] + spec["objs"][i + 1:]
            yield s, None
