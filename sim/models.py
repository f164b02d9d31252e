"""Small executable reference models (plain numpy, sequential, one object at a time).

Every comparison whose outcome could legitimately differ by rounding (a particle on a shell surface,
an iteration on the tolerance) lowers `margin`; results with a tiny margin are not judged."""
import numpy as np

NAN = float("nan")


def unwrap(x, L):
    """nearest images of all particles with respect to a common point of the object"""
    x = np.array(x, dtype=np.float64)
    if L == 0.0 or len(x) == 0:
        return x
    d = x - x[0]
    d -= L * np.round(d / L)
    ref = x[0] + d.mean(axis=0)
    d2 = x - ref
    return x - L * np.round(d2 / L)


def extent_ok(x, L):
    """is the object compact enough (well below half a box) for its periodic images to be unambiguous?"""
    return L == 0.0 or len(x) == 0 or np.all(x.max(axis=0) - x.min(axis=0) < 0.49 * L)


def com(x, m):
    r = x[0]
    return r + ((x - r) * m[:, None]).sum(axis=0) / m.sum()


def mode(x, m, rad):
    margin = np.inf
    while True:
        c = com(x, m)
        d = np.linalg.norm(x - c, axis=1)
        if len(d):
            margin = min(margin, float(np.min(np.abs(d - rad))) / max(rad, 1e-300))
        k = d < rad
        x, m = x[k], m[k]
        if len(x) < 5 or not np.any(d > 0):
            return c, margin
        rad *= 0.83


def center(xu, m, which, density=False):
    """centre in the unwrapped frame and its decision margin"""
    if which == "mode":
        rad = 1000.0 if density else float(np.max(xu.max(axis=0) - xu.min(axis=0)))
        return mode(xu, m, rad)
    return com(xu, m), np.inf


def fold(c, L):
    if L == 0.0:
        return c
    c = np.array(c)
    c = np.where(c >= L, c - L, c)
    return np.where(c < 0, c + L, c)


class Shape:
    __slots__ = ("d", "q", "s", "major", "inter", "minor", "conv", "margin", "gap", "flat")


def katz(x, m, c, d, delta, tol, wall, nmin, reduced, shell, vel=None, vc=None):
    """one shell/ellipsoid.  x: unwrapped positions, vel: velocities (then the tensor is in velocity space)"""
    out = Shape()
    out.margin, out.gap, out.flat = np.inf, np.inf, False
    y = x - c
    r2 = (y ** 2).sum(axis=1)

    def near(val, ref):
        if len(val):
            out.margin = min(out.margin, float(np.min(np.abs(val - ref))) / max(abs(ref), 1e-300))
    sel = r2 < d * d
    near(r2, d * d)
    if shell:
        if delta != d:
            near(r2, (d - delta) ** 2)
        sel &= r2 >= (d - delta) ** 2
    rell2 = r2.copy()
    q = s = 1.0
    err, it = 1.0, 1
    out.conv = False
    out.d = out.q = out.s = NAN
    out.major = out.inter = out.minor = np.full(3, NAN)
    while err > tol:
        if it > wall or sel.sum() < nmin:
            return out
        if vel is not None:
            w = vel[sel] - vc
        else:
            w = y[sel]
        ww = m[sel] / m[sel].sum()
        if reduced:
            if np.any((rell2[sel] > 0) & (rell2[sel] < 1e-12)):
                out.margin = 0.0  # weight of a particle whose distance is rounding error
            mid = rell2[sel] <= 0.0  # right at the centre: no direction, no contribution
            ww = np.where(mid, 0.0, ww / np.where(mid, 1.0, rell2[sel]))
        T = (w * ww[:, None]).T @ w
        ev, V = np.linalg.eigh(T)
        if not (ev[0] > 1e-9 * ev[2]):
            out.flat = True  # no ellipsoid (planar or smaller): unclassified, or vanishingly flat if rounding decides so
            return out
        qo, so = q, s
        q, s = np.sqrt(ev[1] / ev[2]), np.sqrt(ev[0] / ev[2])
        err = max(abs(q - qo) / qo, abs(s - so) / so)
        out.margin = min(out.margin, abs(err - tol) / tol)
        ma, im, mi = V[:, 2], V[:, 1], V[:, 0]
        out.gap = min((ev[2] - ev[1]), (ev[1] - ev[0])) / ev[2]
        p0, p1, p2 = y @ ma, y @ im, y @ mi
        rell2 = p0 ** 2 + p1 ** 2 / q ** 2 + p2 ** 2 / s ** 2
        if out.gap < 1e-6:
            out.margin = 0.0  # the frame itself is undetermined
            return out
        sel = rell2 < d * d
        near(rell2, d * d)
        if shell and d != delta:
            inn = p0 ** 2 / (d - delta) ** 2 + p1 ** 2 / (q * d - delta) ** 2 + p2 ** 2 / (s * d - delta) ** 2
            near(inn, 1.0)
            sel &= inn >= 1
        it += 1
    out.conv = True
    out.d, out.q, out.s, out.major, out.inter, out.minor = d, q, s, ma, im, mi
    return out


def shape_local(x, m, c, r200, R, cfg, vel=None, vc=None):
    out = []
    for k in range(len(R)):
        if r200 == 0.0:
            o = Shape(); o.conv = False; o.d = o.q = o.s = NAN; o.margin = o.gap = np.inf; o.flat = False
            o.major = o.inter = o.minor = np.full(3, NAN)
        else:
            d = r200 * R[k]
            delta = d if k == 0 else r200 * (R[k] - R[k - 1])
            o = katz(x, m, c, d, delta, cfg["tol"], cfg["wall"], cfg["min"], cfg["reduced"], cfg["shell"], vel, vc)
        out.append(o)
    return out


def shape_global(x, m, c, r200, cfg, vel=None, vc=None):
    return katz(x, m, c, r200 + 6.0, None, cfg["tol"], cfg["wall"], cfg["min"], cfg["reduced"], False, vel, vc)


def sph_edges(R):
    R = np.asarray(R, float)
    return np.hstack(([1e-8], 0.5 * (R[:-1] + R[1:]), [R[-1]]))


def dens_sph(x, m, c, r200, R):
    e = sph_edges(R) * np.float64(np.float32(r200))
    r = np.linalg.norm(x - c, axis=1)
    out, mar = np.zeros(len(R)), np.inf
    for k in range(len(R)):
        out[k] = m[(r < e[k + 1]) & (r >= e[k])].sum() / (4 / 3 * np.pi * (e[k + 1] ** 3 - e[k] ** 3))
    for ed in e:
        mar = min(mar, float(np.min(np.abs(r - ed)) / ed)) if len(r) else mar
    return out, mar


def ktilde(r, ri, h):
    return 1 / (2 * (2 * np.pi) ** 1.5) * (r * ri / h ** 2) ** -1 * (np.exp(-(ri - r) ** 2 / (2 * h * h)) - np.exp(-(ri + r) ** 2 / (2 * h * h)))


def dens_kernel(x, m, c, r200, R):
    d = np.linalg.norm(x - c, axis=1)
    d, m = d[d > 0], m[d > 0]  # right at the centre: kernel of no width
    h = 0.005 * r200 * np.sqrt(d / (0.1 * r200))
    out, err = np.zeros(len(R)), np.zeros(len(R))
    for k, rr in enumerate(R):
        t = m * ktilde(rr * r200, d, h) / h ** 3
        out[k] = np.sum(t)
        # the code evaluates the kernel in single precision: bound of what that may change
        err[k] = np.sum(t * (1e-6 + 2.4e-7 * np.maximum(d, rr * r200) * np.abs(d - rr * r200) / h ** 2))
    return out, err


def dens_ell(x, m, c, r200, R, a, b, cc, major, inter, minor):
    """a, b, cc, axes: the object's local shape rows (semi-axes and unit vectors) at their own radii a"""
    from scipy.interpolate import interp1d
    R = np.asarray(R, float)
    mid = 0.5 * (R[:-1] + R[1:])
    e = np.hstack(([mid[0] ** 2 / mid[1]], mid, [R[-1]])) * r200

    def ip(y, at):
        return interp1d(a, y, axis=0, bounds_error=False, fill_value="extrapolate")(at)
    A, B, C = ip(a, e), ip(b, e), ip(cc, e)
    ax = [ip(v, R * r200) for v in (major, inter, minor)]
    ax = [v / np.linalg.norm(v, axis=1)[:, None] for v in ax]
    y = x - c
    out, mar = np.full(len(R), NAN), np.inf
    for k in range(len(R)):
        p = [y @ v[k] for v in ax]
        lo = (p[0] / A[k]) ** 2 + (p[1] / B[k]) ** 2 + (p[2] / C[k]) ** 2
        hi = (p[0] / A[k + 1]) ** 2 + (p[1] / B[k + 1]) ** 2 + (p[2] / C[k + 1]) ** 2
        mar = min(mar, float(np.min(np.abs(lo - 1))), float(np.min(np.abs(hi - 1))))
        sel = (hi < 1) & (lo >= 1)
        vol = 4 / 3 * np.pi * (A[k + 1] * B[k + 1] * C[k + 1] - A[k] * B[k] * C[k])
        if sel.any():
            out[k] = m[sel].sum() / vol
    return out, mar


def prof_value(kind, r, p):
    """p: parameters in the order the library reports them (density, shape parameters, scale radius)"""
    x = r / p[-1]
    if kind == "einasto":
        return p[0] * np.exp(-2 / p[1] * (x ** p[1] - 1))
    if kind == "alpha_beta_gamma":
        return p[0] / (x ** p[3] * (1 + x ** p[1]) ** ((p[2] - p[3]) / p[1]))
    return p[0] / (x * (1 + x) ** (2 if kind == "nfw" else 3))


NPAR = {"nfw": 2, "hernquist": 2, "einasto": 3, "alpha_beta_gamma": 5}
_NAMES = {"nfw": ["r_s"], "hernquist": ["r_s"], "einasto": ["alpha", "r_s"], "alpha_beta_gamma": ["alpha", "beta", "gamma", "r_s"]}
_GUESS = {"nfw": [], "hernquist": [], "einasto": [0.18], "alpha_beta_gamma": [1.0, 1.0, 1.0]}


def fit(R, method, med, r200):
    """one profile fitted on its own; NaN if it cannot be. Parameters given in method stay fixed, in the units of med and r200."""
    from scipy import optimize
    kind = method["profile"]
    ok = ~np.isnan(med)
    r, y = (np.asarray(R, float) * r200)[ok], np.asarray(med, float)[ok]
    b = [(1e-7, np.inf)]
    if "rho_s" in method and len(y):
        b = [(method["rho_s"] / np.average(y),) * 2]
    for n in _NAMES[kind]:
        lo = method[n] if n in method else (1e-10 if n == "alpha" and kind == "einasto" else 1e-5)
        b.append((lo, method[n] if n in method else np.inf))
    x0 = np.array([0.1] + _GUESS[kind] + [r200 / 5])
    free = [k for k in range(len(b)) if b[k][0] != b[k][1]]
    with np.errstate(all="ignore"):
        av = np.average(y) if len(y) else np.nan
        z = np.log(y / av)

        def f(q):
            p = [c[0] for c in b]
            for k, v in zip(free, q):
                p[k] = v
            return np.sum((z - np.log(prof_value(kind, r, p))) ** 2 / len(r)) if len(r) else 0.0
        try:
            if not (len(y) and r200 > 0 and np.all((y > 0) & np.isfinite(y))):
                return np.full(len(x0), NAN)
            p = np.array([c[0] for c in b])
            if free:
                res = optimize.minimize(f, x0[free], method=method.get("min_method", "Powell"), bounds=[b[k] for k in free])
                p[free] = res.x
            if not np.isfinite(f(p[free])):
                return np.full(len(x0), NAN)
        except ValueError:
            return np.full(len(x0), NAN)
    p[0] *= av
    return p


def fit_stable(R, method, med, r200, n=4, tol=1e-6, seed=3):
    """(fit, judged): judged is False where small changes of the profile move the minimiser's answer"""
    p = fit(R, method, med, r200)
    if 0 < np.isfinite(med).sum() < NPAR[method["profile"]]:
        return p, False
    if np.isnan(p).any():
        pass
    elif "r_s" not in method and not 1e-3 < p[-1] / r200 < 1e3 or any(x not in method and v < 1e-3 for x, v in zip(_NAMES[method["profile"]][:-1], p[1:])):
        return p, False  # the minimiser ran off towards a bound: where it stops there is rounding
    g = np.random.RandomState(seed)
    for k in range(n):
        scale = (1e-9, 1e-11, 1e-13, 1e-8)[k % 4]
        q = fit(R, method, np.asarray(med) * (1 + scale * g.normal(size=len(med))), r200 * (1 + 0.01 * scale * g.normal()))
        if not same(p, q, max(tol, 1e3 * scale)):
            return p, False
    return p, True


def same(a, b, tol):
    with np.errstate(all="ignore"):
        return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * np.abs(b))))
