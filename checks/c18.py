"""C18: every figure shows the requested objects' own data."""
import copy, os, random, re, warnings
import numpy as np
from sim import fs, halos, models, omp, ops, plots
from sim.util import *
from checks import c10, c14

ID, LEVEL = "C18", "exploration"
TECHNIQUE = ("deterministic simulation of histories of plotting calls on several live objects in changing output units, with seeded disk faults under the plot folder, dumps in between and seeded thread schedules; "
             "every saved figure is captured at the matplotlib seam and its curves, bands, bars, points, ellipsoids, arrows and labels are compared with those computed from the catalogue of a fresh process by an executable model")
NOTE = ("Sampled histories of up to 5 calls on up to 2 objects. Shape catalogues, centres and masses themselves are taken from the library in a fresh process (C01-C06 judge them), particles and centres drawn in 3D are modelled. "
        "Not judged: colours, font sizes and other decoration, mass groups when masses tie at a group boundary, histogram bars when a value lies on a bin edge, fits whose minimiser is not stable under rounding.")
LIBS = ["simomp", "simfs"]
RUNS, RUNS_THOROUGH = 480, 8000
TIME_UNIT = "operations of the history"
RULE = "One case = catalogues, objects and one history of calls. Distinct: different history prefixes by hash; counted only if a figure was judged after at least one other call or fault."
REAL = ["all plotting and visualisation methods, shape and centre finding, profile fitting (real code, rebuilt from /repo)", "matplotlib up to savefig (figures are built for real)"]
STUB = ["disk below the output folders (libsimfs.so)", "OpenMP runtime", "PDF rendering (figures are captured; the file written holds a digest)", "mpi4py: simulated communicator of one rank"]
ASSUMPTIONS = ["what savefig is given is what the file shows"]
preload = c14.preload


def gen(rng, tier, i):
    vel = rng.random() < 0.35
    nc = rng.choice([1, 1, 2])
    cats = [ops.gen_cat(rng, vel, nobj=rng.choice([1, 2, 3, 4, 5, 6]))]
    if nc == 2:
        cats.append(ops.sibling(cats[0], rng))
    big = rng.random() < 0.04
    if big:
        cats[0]["objs"][0]["n"] = 5000 + rng.randint(1, 400)
    for c in cats:
        for ob in c["objs"]:
            if rng.random() < 0.4:
                ob["mass"] = "mixed"
    objs = [{"cat": rng.randrange(nc), "gad": vel and rng.random() < 0.6, "center": "com" if big else rng.choice(["mode", "com"]), "rdef": rng.choice(["Rvir", "R200"])} for _ in range(rng.choice([1, 2]))]
    nobj = [len(cats[o["cat"]]["objs"]) for o in objs]
    gad = [o["gad"] for o in objs]
    hist = []
    for _ in range(rng.choice([1, 2, 3, 5]) if not big else 2):
        r = rng.random()
        if r < 0.15:
            op = ops.gen_op(rng, nobj, [False] * len(gad), ops.SHAPES + ops.DUMPS + ["centers"])
        else:
            op = ops.gen_op(rng, nobj, [False] * len(gad), ops.PLOTS if not big else ["vizLocal", "vizGlobal", "plotGlobalEps"])
        if rng.random() < 0.3:
            op["sched"] = omp.gen_sched(rng, horizon=30000)
        if op["op"] in ops.PLOTS + ops.DUMPS and rng.random() < 0.15:
            op["plan"] = [f for f in c10.gen_plan(rng) if f["kind"] not in ("crash", "crash-after", "torn")]
            for f in op["plan"]:
                f["at"] = rng.randint(1, 12)
        hist.append(op)
        if op["op"] in ops.DUMPS and rng.random() < 0.8 or rng.random() < 0.07:    # reload what was dumped, perhaps in other units
            if op["op"] not in ops.DUMPS:
                op = ops.gen_op(rng, nobj, [False] * len(gad), ops.DUMPS)
                hist.append(op)
            for _ in range(rng.choice([1, 1, 2])):
                q = ops.gen_op(rng, nobj, [False] * len(gad), ["plotShape", "plotLocalT", "vizLocal"] if op["op"] == "dumpLocal" else ["plotGlobalT", "vizGlobal"], objs=[op["obj"]])
                hist.append(dict(q, sel=list(op["sel"]), katz=op["katz"]))
        if rng.random() < 0.25 and op["op"] in ops.PLOTS:
            q = {k: v for k, v in op.items() if k not in ("plan", "sched")}
            q["out"] = rng.randrange(len(ops.OUT))
            if rng.random() < 0.5:
                q["sel"] = q["sel"][::-1] if len(q["sel"]) > 1 else rng.sample(range(nobj[op["obj"]]), rng.randint(1, nobj[op["obj"]]))
            hist.append(q)
    return {"cats": cats, "objs": objs, "hist": hist, "katz": [ops.gen_katz(rng), ops.gen_katz(rng)], "files": 1, "ptype": rng.choice([["dm", 1], ["stars", 4], ["gas", 0]]), "time": 1.0, "lay": rng.getrandbits(32)}


# ---------------------------------------------------------------- the model

SUP = {"\u2070": "0", "\u00b9": "1", "\u00b2": "2", "\u00b3": "3", "\u2074": "4", "\u2075": "5", "\u2076": "6", "\u2077": "7", "\u2078": "8", "\u2079": "9", "\u207b": "-"}


def number(t):
    """2.88 x 10^12 in superscripts, or plain digits"""
    t = "".join(c for c in t if c not in "\u2800 ")
    m = re.fullmatch(r"([\d.]+)(?:\u2715|x|\\times)10(.*)", t)
    if not m:
        return float(t)
    e = m.group(2)
    e = "".join(SUP.get(c, c) for c in e).strip("^{}")
    return float(m.group(1)) * 10.0 ** float(e)


def label_range(t):
    m = re.search(r"M: (.+?) - (.+?) \\ M_", t)
    return (number(m.group(1)), number(m.group(2))) if m else None


def groups(masses, nb):
    """-> (edges, groups of places in the selection, tie at a boundary?)"""
    o = np.argsort(masses, kind="stable")
    n = len(masses)
    c = n // nb if n % nb == 0 else n // nb + 1
    g = [list(o[k:k + c]) for k in range(0, n, c)]
    edges = [masses[x[0]] for x in g] + [masses[o[-1]]]
    tie = any(abs(masses[a[-1]] - masses[b[0]]) <= 1e-9 * masses[b[0]] for a, b in zip(g, g[1:]))
    return np.array(edges), g, tie


def med(y):
    y = np.asarray(y, float)
    if not len(y):
        return models.NAN, models.NAN, models.NAN
    n = np.sqrt(len(y))
    m = np.median(y)
    return m, m - np.quantile(y, 0.25) / n, m + np.quantile(y, 0.75) / n


def curves(rows):
    """median, lower and upper edge of the band, column by column, without what is undefined"""
    a = np.array([med(c[~np.isnan(c)]) for c in np.asarray(rows, float).T])
    return a[:, 0], a[:, 1], a[:, 2]


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def show(a):
    return np.array2string(np.asarray(a, float), precision=6, max_line_width=400, threshold=30)


def line(ls, x, y, rtol, atol, what):
    need(any(l["xy"].shape[1] == len(x) and close(l["xy"][0], x, 1e-9) and close(l["xy"][1], y, rtol, atol) for l in ls),
         "%s is not drawn: expected %s at %s, drawn %s" % (what, show(y), show(x), [show(l["xy"][1]) for l in ls]))


def band(colls, x, lo, hi, rtol, atol, what):
    pv = [c for c in colls if "paths" in c]
    need(len(pv) == 1, "%d shaded bands" % len(pv))
    v = np.vstack([p for p in pv[0]["paths"]] or [np.zeros((0, 2))])
    v = v[~np.isnan(v).any(axis=1)]
    ok = ~(np.isnan(lo) | np.isnan(hi))
    want = np.array([[a, b] for a, b in zip(np.hstack([x[ok], x[ok]]), np.hstack([lo[ok], hi[ok]]))]).reshape(-1, 2)

    def inn(p, q):
        return len(q) and np.any((np.abs(q[:, 0] - p[0]) <= 1e-9 * abs(p[0])) & (np.abs(q[:, 1] - p[1]) <= atol + rtol * np.abs(p[1])))
    for p in v:
        need(inn(p, want), "%s: the shaded band passes through (%g, %g), which is no bound of the data: %s to %s at %s" % (what, p[0], p[1], show(lo), show(hi), show(x)))
    for k, p in enumerate(want):
        need(inn(p, v), "%s: the shaded band does not reach (%g, %g)" % (what, p[0], p[1]))


def bars(ax, vals, nb, sure, what):
    """density histogram of vals over nb-1 equal bins between 0 and 1"""
    e = np.linspace(0, 1, nb)
    B = sorted([tuple(b) for b in ax["bars"]])
    need(len(B) == nb - 1, "%s: %d bars instead of %d" % (what, len(B), nb - 1))
    v = np.asarray(vals, float)
    v = v[~np.isnan(v)]
    need(close([b[0] for b in B], e[:-1], 1e-6, 1e-9) and close([b[0] + b[2] for b in B], e[1:], 1e-6, 1e-9), "%s: the bars stand at %s" % (what, show([b[0] for b in B])))
    if len(v) and np.min(np.abs(v[:, None] - e[None, :])) < sure:
        return False
    n = np.array([np.sum((v >= e[k]) & (v < e[k + 1])) for k in range(nb - 1)], float)
    if n.sum() == 0:
        need(all(np.isnan(b[3]) or b[3] == 0 for b in B), "%s: bars %s where no object has a value" % (what, show([b[3] for b in B])))
    else:
        need(close([b[3] for b in B], n / n.sum() * (nb - 1), 1e-6, 1e-9), "%s: bars of heights %s, the %d values %s make %s" % (what, show([b[3] for b in B]), len(v), show(v), show(n / n.sum() * (nb - 1))))
    return True


def eps_of(x, m, L, which):
    """-> (|ellipticity|, judged)"""
    if len(x) < 2:
        return models.NAN, True
    xu = models.unwrap(x, L)
    c, mar = models.center(xu, m, which)
    y = xu - c
    w = m / m.sum()
    xx, yy, xy = (w * y[:, 0] ** 2).sum(), (w * y[:, 1] ** 2).sum(), (w * y[:, 0] * y[:, 1]).sum()
    scale = np.abs(xu).max()
    if xx + yy < 1e-12 * scale ** 2:
        return models.NAN, False
    return abs(complex(xx - yy, 2 * xy)) / (xx + yy), mar > 1e-7


class Truth:
    """what the library says in a fresh process, in internal units"""

    def __init__(self, w, sc):
        self.w, self.sc, self.memo, self.n = w, sc, {}, 0

    def get(self, op, what):
        q = {"op": what, "obj": op["obj"], "sel": op["sel"] if what not in ("xyz", "idx", "r200") else [0], "katz": op["katz"], "out": 0}
        key = repr(sorted(q.items()))
        if key not in self.memo:
            w2 = copy.copy(self.w)
            w2.out = self.w.work + "/refout"
            self.n += 1
            self.memo[key] = c14.reference(w2, self.sc, q, "t%d" % self.n)
        r = self.memo[key]
        if r[0] != "ok":
            raise Unjudged(r[1] if r[0] == "exc" else str(r))
        return r[1]


class Unjudged(Exception):
    pass


def judge(o, sc, T, op, figs, dumped, complete):
    """figs: what the call saved, in order.  Raises Bad"""
    name, sel, n = op["op"], op["sel"], len(op["sel"])
    od = sc["objs"][op["obj"]]
    suf = "_%s_" % sc["ptype"][0] if od["gad"] else "_"
    tail = suf + "035.pdf"
    rt, at = (5e-5, 1e-4) if dumped else (1e-6, 1e-9)
    R = np.array(sc["katz"][op["katz"]]["R"])
    for f in figs:
        need(len(f["axes"]) == 1, "%s: %d axes" % (f["file"], len(f["axes"])))
        need("/" not in f["file"] and f["file"].endswith(tail), "a figure was saved as %s" % f["file"])

    def expect(names):
        """names: prefix or (prefix, log10 of the mass); -> {k: axes} in that order"""
        left, out = list(figs), {}
        for k, q in enumerate(names):
            for f in left:
                s = f["file"][:-len(tail)]
                if s == q if isinstance(q, str) else (s.startswith(q[0]) and re.fullmatch(r"-?\d+\.\d\d", s[len(q[0]):]) and abs(float(s[len(q[0]):]) - q[1]) <= 0.00502):
                    out[k] = f["axes"][0]
                    left.remove(f)
                    break
            else:
                need(not complete, "there is no figure %s%s among %s" % (q if isinstance(q, str) else "%s%.2f" % q, tail, [f["file"] for f in figs]))
        need(not left, "an unexpected figure %s" % [f["file"] for f in left])
        return out

    def per_group(ax, k, edges, what):
        r = [label_range(c["label"]) for c in ax["colls"]]
        need(len(r) == 1 and r[0] is not None, "%s: labels %s" % (what, [c["label"] for c in ax["colls"]]))
        need(abs(r[0][0] / edges[k] - 1) < 0.0051 and abs(r[0][1] / edges[k + 1] - 1) < 0.0051, "%s is labelled with masses %g to %g; the group has %g to %g Msun/h" % (what, r[0][0], r[0][1], edges[k], edges[k + 1]))

    if name == "plotShape":
        S, C = T.get(op, "local"), T.get(op, "centers")
        q, s = S["q"], S["s"]
        with np.errstate(all="ignore"):
            t = (1 - q ** 2) / (1 - s ** 2)
        loose = dumped or np.nanmax(np.append(s, 0)) > 0.999
        edges, grp, tie = groups(C["mass"] * 1e10, op["nb"])
        names = ["q", "s", "T"] + ([(x + "M", np.log10(edges[k])) for x in "qsT" for k in range(len(grp))])
        got = expect(names)
        for k, ax in got.items():
            which = "qsT"[k if k < 3 else (k - 3) // len(grp)]
            D = {"q": q, "s": s, "T": t}[which]
            g = None if k < 3 else (k - 3) % len(grp)
            what = "%s%s" % (which, "" if g is None else " of mass group %d" % g)
            need(len(ax["lines"]) == (2 if which == "T" else 1) and len(ax["colls"]) == 1, "%s: %d lines and %d areas drawn" % (what, len(ax["lines"]), len(ax["colls"])))
            need(ax["ylabel"].strip("$") == which and "R_{200}" in ax["xlabel"], "%s: axes %s, %s" % (what, ax["xlabel"], ax["ylabel"]))
            if g is not None:
                per_group(ax, g, edges, what)
                if tie:
                    o.count("groups not judged (masses tie)")
                    continue
            if which == "T" and loose:
                continue
            rows = D if g is None else D[grp[g]]
            m, lo, hi = curves(rows)
            line(ax["lines"], R, m, rt, at, "the median " + what)
            band(ax["colls"], R, lo, hi, rt, at, what)
            if which == "T":
                need(any(close(l["xy"][1], [2 / 3, 2 / 3], 1e-9) for l in ax["lines"]), "%s: the line at 2/3 is missing" % what)
            o.count("profile figures judged")
        return
    if name == "plotDens":
        C = T.get(op, "centers")
        r200 = T.get(op, "r200")[sel]
        P, Rp = ops.user_profiles(op, n)
        Pf, Rf = ops.user_profiles(dict(op, noise=op["noise"] ^ 1), n, max(4, op["nr"] - 1))
        edges, grp, tie = groups(C["mass"] * 1e10, op["nb"])
        got = expect(["RhoProf"] + [("RhoProfM", np.log10(edges[k])) for k in range(len(grp))])
        for k, ax in got.items():
            what = "density" if k == 0 else "density of mass group %d" % (k - 1)
            need(len(ax["lines"]) == 2 and len(ax["colls"]) == 1, "%s: %d lines and %d areas drawn" % (what, len(ax["lines"]), len(ax["colls"])))
            dens_label(ax["ylabel"], op["out"])
            need("R_{200}" in ax["xlabel"], "%s: x axis %s" % (what, ax["xlabel"]))
            if k:
                per_group(ax, k - 1, edges, what)
                if tie:
                    o.count("groups not judged (masses tie)")
                    continue
            rows = list(range(n)) if k == 0 else grp[k - 1]
            m, lo, hi = curves(P[rows])
            line(ax["lines"], Rp, m, 1e-6, 0, "the median " + what)
            band(ax["colls"], Rp, lo, hi, 1e-6, 1e-9 * np.abs(hi).max(), what)
            r = np.average(r200[rows])
            mf = np.median(Pf[rows], axis=0)
            p, ok = models.fit_stable(Rf, dict(ops.method(op), **{x: v for x, v in ops.method(dict(op, out=0)).items() if x == "r_s"}), mf, r)       # r is in internal units
            if ok:
                with np.errstate(all="ignore"):
                    line(ax["lines"], Rf, models.prof_value(op["prof"], Rf * r, p), 1e-4, 0, "the fit to the median " + what)
                o.count("fit curves judged")
            else:
                need(any(l["xy"].shape[1] == len(Rf) and close(l["xy"][0], Rf, 1e-9) for l in ax["lines"]), "%s: no fit is drawn" % what)
            o.count("profile figures judged")
        return
    if name in ("plotLocalT", "plotGlobalT"):
        S = T.get(op, "local" if name == "plotLocalT" else "global")
        q, s = S["q"].reshape(n, -1), S["s"].reshape(n, -1)
        k = q.shape[1] - 1
        got = expect(["LocalTCount" if name == "plotLocalT" else "GlobalTCount"])
        if 0 not in got:
            return
        ax = got[0]
        need(len(ax["lines"]) == 2 and not ax["colls"], "%d lines, %d areas drawn" % (len(ax["lines"]), len(ax["colls"])))
        for pos in (1 / 3, 2 / 3):
            need(any(close(l["xy"][0], [pos, pos], 1e-9) for l in ax["lines"]), "the line at %.3f is missing" % pos)
        if name == "plotLocalT":
            dist = np.abs(R - op["frac"])
            k = int(np.argmin(dist))
            if np.sort(dist)[1] - dist[k] < 1e-6 if len(dist) > 1 else False:
                return
        with np.errstate(all="ignore"):
            t = (1 - q[:, k] ** 2) / (1 - s[:, k] ** 2)
        if bars(ax, t, op["hist"], 1e-3 if dumped else 1e-7, "triaxiality at %s" % ("depth %g" % op["frac"] if name == "plotLocalT" else "large")):
            o.count("histograms judged")
        return
    xyz, mass = T.get(op, "xyz")
    flat, size = [np.asarray(l, dtype=int) for l in T.get(op, "idx")]
    idx = np.split(flat, np.cumsum(size)[:-1])
    L = sc["cats"][od["cat"]]["L"]
    if not all(models.extent_ok(models.unwrap(xyz[idx[p]], L), L) for p in sel):
        raise Unjudged("an object is too large for the box")
    if name in ("plotGlobalEps", "plotLocalEps"):
        got = expect(["EpsCount" if name == "plotGlobalEps" else "LocalEpsCount"])
        if 0 not in got:
            return
        ax = got[0]
        need(not ax["lines"] and not ax["colls"], "%d lines, %d areas drawn" % (len(ax["lines"]), len(ax["colls"])))
        r200 = T.get(op, "r200")
        vals, sure = [], True
        for p in sel:
            x, m = xyz[idx[p]], mass[idx[p]]
            if name == "plotLocalEps":
                xu = models.unwrap(x, L)
                c, mar = models.center(xu, m, od["center"])
                d = np.linalg.norm(xu - c, axis=1)
                rad = r200[p] * op["frac"]
                sure &= mar > 1e-7 and np.min(np.abs(d - rad)) > 1e-9 * rad
                x, m = x[d <= rad], m[d <= rad]
                if not len(x):
                    continue
            e, ok = eps_of(x, m, L, od["center"])
            sure &= ok
            vals.append(e)
        if sure and bars(ax, vals, op["hist"], 1e-7, "ellipticity"):
            o.count("histograms judged")
        return
    # 3D
    S = T.get(op, "local" if name == "vizLocal" else "global")
    S = {f: np.asarray(S[f], float).reshape((n, -1) if f in "dqs" else (n, -1, 3)) for f in ("d", "q", "s", "major", "inter", "minor")}
    got = expect(["%s%d" % ("LocalObj" if name == "vizLocal" else "GlobalObj", p) for p in sel])
    fl = ops.factors(op["out"])[0]
    for k, p in enumerate(sel):
        if k in got:
            viz(o, got[k], "object %d" % p, xyz[idx[p]], mass[idx[p]], L, od["center"], {f: S[f][k] for f in S}, fl, op["out"], rt)


def unit_name(out, which):
    u = ops.OUT[out][which]
    return u if isinstance(u, str) else "%.2e%s" % (u / (ops.LEN["kpc"] if which == 0 else ops.MASS["Msun"]), ["kpc", "Msun"][which])


def plain(t):
    """units in a label without the markup"""
    t = re.sub(r"\\mathrm\{?|\\cdot", "", t)
    t = t.replace(r"_{\odot}", "sun").replace("10^{10}", "E+10")
    return re.sub(r"[\s{}$()\\]", "", t)


def dens_label(t, out):
    want = plain("%s/%s^3" % (unit_name(out, 1), unit_name(out, 0)))
    got = plain(t[t.index("[") + 1: t.rindex("]")]) if "[" in t else t
    need(got == want, "the density axis is labelled %s: units of %s" % (t, want))


def viz(o, ax, who, x, m, L, which, S, fl, out, rt):
    pts = [c for c in ax["colls"] if "xyz" in c]
    arr = [c for c in ax["colls"] if "segs" in c]
    for a, k in (("x", "xlabel"), ("y", "ylabel"), ("z", "zlabel")):
        t = ax[k]
        need(t.strip().startswith(a) and "[" in t and t[t.index("[") + 1: t.rindex("]")] == unit_name(out, 0), "%s: the %s axis is labelled %r in units of %s" % (who, a, t, unit_name(out, 0)))
    byl = {}
    for c in pts:
        byl.setdefault("ell" if c["label"].startswith("Inferred") else c["label"], []).append(c)
    need(set(byl) <= {"Particles", "COM", "ell"}, "%s: point sets %s" % (who, sorted(byl)))
    need(len(byl.get("Particles", [])) == 1 and len(byl.get("COM", [])) == 1 and byl["COM"][0]["xyz"].shape[1] == 1, "%s: point sets %s" % (who, [(c["label"], c["xyz"].shape) for c in pts]))
    P, c = byl["Particles"][0]["xyz"].T / fl, byl["COM"][0]["xyz"].T[0] / fl
    xu = models.unwrap(x, L)
    cm, mar = models.center(xu, m, which)
    scale = np.abs(xu).max() + (L or 0)
    tol = fine = 3e-7 * scale                            # the factor and the box go through single precision
    if mar > 1e-7:
        d = c - models.fold(cm, L)
        if L:
            d = d - L * np.round(d / L)
            need(np.all(c >= -tol) and np.all(c <= L + tol), "%s: the centre %s lies outside the box" % (who, show(c)))
        need(np.max(np.abs(d)) <= tol, "%s: the centre is drawn at %s instead of %s" % (who, show(c), show(models.fold(cm, L))))
        off = xu - cm
        need(len(P) == min(len(x), 5000), "%s: %d particles drawn of %d" % (who, len(P), len(x)))
        size = np.broadcast_to(byl["Particles"][0]["size"], (len(P),)) if byl["Particles"][0]["size"].size in (1, len(P)) else byl["Particles"][0]["size"]
        from scipy.spatial import cKDTree
        dist, at = cKDTree(off).query(P - c)
        need(np.all(dist <= 3 * fine), "%s: %d of the %d particles drawn are not the object's own around its centre, e.g. %s with the centre at %s" % (who, np.sum(dist > 3 * fine), len(P), show(P[np.argmax(dist)]), show(c)))
        need(len(set(at)) >= len(P) - (len(off) - len(np.unique(np.round(off / fine), axis=0))), "%s: %d different particles drawn instead of %d" % (who, len(set(at)), len(P)))
        ratio = size / m[at]
        need(close(ratio, np.full(len(ratio), ratio.mean()), 1e-5), "%s: the sizes of the particles do not follow their masses" % who)
        o.count("particle sets judged")
    else:
        o.count("centres not judged (rounding)")
    ok = [k for k in range(len(S["d"])) if not np.isnan(S["d"][k])]
    A = {k: np.array([S["d"][k], S["d"][k] * S["q"][k], S["d"][k] * S["s"][k]]) for k in ok}
    F = {k: np.array([S["major"][k], S["inter"][k], S["minor"][k]]) for k in ok}
    et = max(1e-4, 10 * rt)
    rowsof = []
    for e in byl.get("ell", []):
        y = e["xyz"].T / fl - c
        if not len(y) or np.isnan(y).any():
            need(np.isnan(y).all(), "%s: an ellipsoid is drawn in part" % who)
            need(any(np.isnan(S["d"])), "%s: an ellipsoid is missing" % who)
            continue
        hit = None
        for k in ok:
            u = (y @ F[k].T) / A[k]
            slack = et + 1e-10 * scale / A[k].min()
            if np.max(np.abs(np.linalg.norm(u, axis=1) - 1)) < slack and np.all(u.max(axis=0) > 0.9) and np.all(u.min(axis=0) < -0.9):
                hit = k
                lab = [float(v) for v in re.findall(r"= ?([-\d.]+)", e["label"])]
                bad = not (len(lab) == 3 and np.all(np.abs(np.array(lab) - A[k] * fl) <= 0.00501 + (3e-6 + rt) * A[k] * fl))
                if not bad:
                    break
        need(hit is not None, "%s: the ellipsoid labelled %s is none of the object's own (radii %s), in the object's frame around its centre" % (who, e["label"], [show(A[k] * fl) for k in ok]))
        need(not bad, "%s: the ellipsoid of radii %s is labelled %s" % (who, show(A[hit] * fl), e["label"]))
        rowsof.append(hit)
        o.count("ellipsoids judged")
    last = len(S["d"]) - 1
    if last in ok:
        need(last in rowsof, "%s: the outermost ellipsoid is not drawn" % who)
    seen = set()
    for a in arr:
        if np.isnan(a["segs"]).any():
            need(np.isnan(S["d"]).any(), "%s: an axis is missing" % who)
            continue
        e = a["segs"][0] / fl - c
        kind = next((f for f in ("Major", "Intermediate", "Minor") if a["label"].startswith(f)), None)
        far = e[np.argmax(np.linalg.norm(e, axis=1))]
        near = e[np.argmin(np.linalg.norm(e, axis=1))]
        hit = [(k, j) for k in ok for j in range(3) if min(np.max(np.abs(far - A[k][j] * F[k][j])), np.max(np.abs(far + A[k][j] * F[k][j]))) <= et * A[k][j] + 1e-10 * scale and np.max(np.abs(near)) <= 1e-10 * scale + 1e-5 * A[k][j]
               and (kind is None or kind == ["Major", "Intermediate", "Minor"][j])]
        need(hit, "%s: the arrow %r from %s to %s is no such axis of the object's ellipsoids" % (who, a["label"], show(a["segs"][0][0]), show(a["segs"][0][1])))
        for q in hit:
            if kind:
                seen.add(q)
        o.count("axes judged")
    if arr and not np.isnan(S["d"]).any():
        need(any(all((k, j) in seen for j in range(3)) for k in ok), "%s: the three axes of no ellipsoid are drawn and named" % who)
    need(len(arr) >= 3, "%s: %d arrows drawn" % (who, len(arr)))


def run(sc, work):
    o = Obs()
    warnings.simplefilter("ignore")
    omp.configure({"policy": omp.SEQ, "threads": 1})
    plots.REAL = False
    w = ops.World(sc, work)
    T = Truth(w, sc)
    os.makedirs(w.out, exist_ok=True)
    os.makedirs(work + "/cwd")
    os.chdir(work + "/cwd")
    live, events = [], 0
    for k in range(len(sc["objs"])):
        ops.set_units(0)
        live.append(w.open(k))
    dumped = set()
    for n, op in enumerate(sc["hist"]):
        o.simtime += 1
        obj, _, vz, cat = live[op["obj"]]
        where = c14.label(n, op)
        plan, hits, err = op.get("plan") or [], {}, None
        if op.get("sched"):
            omp.configure(op["sched"])
            o.count("fault:thread schedule")
        if plan:
            fs.start(w.out, plan)
        plots.take()
        ops.set_units(op["out"])
        try:
            ops.call(obj, sc, op)
        except Unsupported:
            raise
        except Exception as e:
            err = exc_text(e)
        finally:
            if plan:
                fs.stop()
                hits = fs.hits()
                for k, v in hits.items():
                    o.count("fault:disk " + k, v)
            omp.configure({"policy": omp.SEQ, "threads": 1})
        figs = ops.figures(vz)
        if op["op"].startswith("dump"):
            dumped.add(op["obj"])
        if op["op"] in ops.PLOTS:
            if err and not hits:
                o.v("plot-refused", "%s: %s" % (where, err))
                break
            try:
                judge(o, sc, T, op, figs, op["obj"] in dumped, err is None)
                if events:
                    o.sigs.append(h(sc["hist"][:n + 1], sc["objs"], sc["cats"]))
                o.count("calls judged")
            except Bad as e:
                o.v("figure", "%s: %s" % (where, e))
                break
            except Unjudged as e:
                o.count("not judged")
            o.log(n, [x for x in plots.flat(figs)])
        events += 1
    o.sample = "objects %s; %s" % ([("files" if q["gad"] else "arrays", q["cat"], q["center"]) for q in sc["objs"]], ["%s@%d %s in %s%s" % (p["op"], p["obj"], p["sel"], ops.OUT[p["out"]], " (bad disk)" if p.get("plan") else "") for p in sc["hist"]])
    return o.out()


def shrinks(sc):
    for c in shrink_list(sc["hist"], keep=1):
        yield dict(sc, hist=c)
    for i, q in enumerate(sc["hist"]):
        for f in ("plan", "sched"):
            if q.get(f):
                yield dict(sc, hist=sc["hist"][:i] + [{k: v for k, v in q.items() if k != f}] + sc["hist"][i + 1:])
        if len(q["sel"]) > 1:
            for c in shrink_list(q["sel"], keep=1):
                yield dict(sc, hist=sc["hist"][:i] + [dict(q, sel=c)] + sc["hist"][i + 1:])
        if q["out"]:
            yield dict(sc, hist=sc["hist"][:i] + [dict(q, out=0)] + sc["hist"][i + 1:])
    used = sorted({q["obj"] for q in sc["hist"]})
    if len(used) < len(sc["objs"]):
        yield dict(sc, objs=[sc["objs"][k] for k in used], hist=[dict(q, obj=used.index(q["obj"])) for q in sc["hist"]])
    for i, q in enumerate(sc["katz"]):
        if len(q["R"]) > 3:
            c = copy.deepcopy(sc)
            c["katz"][i]["R"] = q["R"][:3]
            yield c
    for ci, spec in enumerate(sc["cats"]):
        for s, drop in halos.shrink_spec(spec):
            if drop is None and all(x["n"] >= 12 for x in s["objs"]):
                yield dict(sc, cats=sc["cats"][:ci] + [s] + sc["cats"][ci + 1:])


def pin(sc, trace):
    return sc
