"""Figures at the matplotlib seam: what every savefig call draws, as plain data, and a light file writer instead of the PDF renderer.

install() wraps Figure.savefig. Each call records the figure's artists (data, labels, scales, limits, texts) under the file name and
then either runs the real backend or writes a file holding a digest of that content through Python's own file I/O, so that the
simulated disk sees the same kind of operations (open, several writes, close)."""
import os
import numpy as np
from sim.util import h

REAL = False            # run the PDF backend?
SAVED = []              # (absolute file name, content)
_done = False


def _a(x):
    return np.array(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan), dtype=float)


def _color(c):
    from matplotlib.colors import to_rgba_array
    try:
        return np.round(to_rgba_array(c), 6)
    except Exception:
        return repr(c)


def content(fig):
    """[axes] each a dict; artists in drawing order of their kind"""
    out = []
    for ax in fig.axes:
        d = {"xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "xscale": ax.get_xscale(), "yscale": ax.get_yscale(), "title": ax.get_title()}
        three = hasattr(ax, "get_zlim")
        if three:
            d["zlabel"] = ax.get_zlabel()
            d["zlim"] = _a(ax.get_zlim())
        d["xlim"], d["ylim"] = _a(ax.get_xlim()), _a(ax.get_ylim())
        d["lines"] = [{"xy": _a(l.get_data_3d()) if hasattr(l, "get_data_3d") else _a(l.get_xydata()).T, "label": str(l.get_label()), "ls": l.get_linestyle(), "marker": str(l.get_marker()),
                       "color": _color(l.get_color())} for l in ax.get_lines()]
        d["bars"] = [_a([p.get_x(), p.get_y(), p.get_width(), p.get_height()]) for p in ax.patches if hasattr(p, "get_width")]
        d["colls"] = []
        for c in ax.collections:
            e = {"type": type(c).__name__, "label": str(c.get_label())}
            if hasattr(c, "_offsets3d"):
                e["xyz"] = np.array([_a(v) for v in c._offsets3d])
                e["size"] = _a(c._sizes3d if hasattr(c, "_sizes3d") else c.get_sizes())
                e["color"] = _color(c._facecolor3d if hasattr(c, "_facecolor3d") else c.get_facecolor())
            elif hasattr(c, "_segments3d"):
                e["segs"] = np.array([_a(s) for s in c._segments3d])
                e["color"] = _color(c.get_edgecolor())
            else:
                e["paths"] = [_a(p.vertices) for p in c.get_paths()]
            d["colls"].append(e)
        lg = ax.get_legend()
        d["legend"] = [t.get_text() for t in lg.get_texts()] if lg else None
        d["texts"] = [(t.get_text(), _a(t.get_position())) for t in ax.texts]
        out.append(d)
    return out


def light(fname, c):
    """a file in the folder of the plot, of about the size the real one has"""
    dig = h(repr(flat(c)))
    with open(fname, "wb") as f:
        f.write(b"%PDF-sim " + dig.encode() + b"\n")
        f.write(b"x" * 9000)
        f.write(b"y" * 9000)
        f.write(b"%%EOF " + dig.encode())


def complete(fname):
    """is the (light) file whole?"""
    with open(fname, "rb") as f:
        b = f.read()
    if not b.startswith(b"%PDF-sim "):
        return b.startswith(b"%PDF") and b.rstrip().endswith(b"%%EOF")
    return len(b) == 9 + 16 + 1 + 18000 + 6 + 16 and b[9:25] == b[-16:]


def install():
    global _done
    if _done:
        return
    _done = True
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt        # noqa
    from matplotlib.figure import Figure
    real = Figure.savefig

    def savefig(self, fname, *a, **kw):
        c = content(self)
        name = os.path.abspath(os.fspath(fname)) if isinstance(fname, (str, os.PathLike)) else repr(type(fname))
        if REAL or not isinstance(fname, (str, os.PathLike)):
            real(self, fname, *a, **kw)
        else:
            light(os.fspath(fname), c)
        SAVED.append((name, c))
    Figure.savefig = savefig


def take(keep=()):
    """what was saved since the last call; closes all figures but the user's own"""
    import matplotlib.pyplot as plt
    out = list(SAVED)
    SAVED.clear()
    for n in plt.get_fignums():
        if n not in keep:
            plt.close(n)
    return out


def flat(x, path=""):
    """content -> [(path, array or str)]"""
    if isinstance(x, dict):
        r = []
        for k in sorted(x):
            r += flat(x[k], path + "." + k)
        return r
    if isinstance(x, (list, tuple)):
        r = [(path + "#", str(len(x)))]
        for i, v in enumerate(x):
            r += flat(v, "%s[%d]" % (path, i))
        return r
    if isinstance(x, np.ndarray):
        return [(path, x)]
    return [(path, str(x))]


def differ(a, b, rtol=1e-9, atol=1e-12):
    """None, or the first thing in which two contents differ"""
    fa, fb = flat(a), flat(b)
    for (pa, va), (pb, vb) in zip(fa, fb):
        if pa != pb:
            return "%s against %s" % (pa, pb)
        if isinstance(va, str) or isinstance(vb, str):
            if not (isinstance(va, str) and isinstance(vb, str)) or va != vb:
                return "%s: %r against %r" % (pa, va, vb)
        else:
            if va.shape != vb.shape:
                return "%s: shapes %s against %s" % (pa, va.shape, vb.shape)
            with np.errstate(invalid="ignore"):
                ok = (va == vb) | (np.isnan(va) & np.isnan(vb)) | (np.abs(va - vb) <= atol + rtol * np.abs(vb))
            if not ok.all():
                k = tuple(np.argwhere(~ok)[0])
                return "%s%s: %r against %r" % (pa, list(map(int, k)), float(va[k]), float(vb[k]))
    if len(fa) != len(fb):
        return "%d against %d parts" % (len(fa), len(fb))
    return None
