import hashlib, json, math, os, re, traceback
import numpy as np


def h(*a):
    m = hashlib.sha256()
    for x in a:
        if isinstance(x, np.ndarray):
            m.update(str(x.dtype).encode() + str(x.shape).encode())
            m.update(np.ascontiguousarray(x).tobytes())
        else:
            m.update(repr(x).encode())
        m.update(b"|")
    return m.hexdigest()[:16]


class Obs:
    """collects what one run observed"""

    def __init__(self):
        self.viol, self.stats, self.sigs, self.dig = [], {}, [], []
        self.simtime, self.trace, self.sample = 0, None, None

    def v(self, kind, msg, sig=None):
        if len(self.viol) < 20:
            d = {"kind": kind, "msg": str(msg)[:1500]}
            if sig:
                d["sig"] = sig
            self.viol.append(d)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def log(self, *a):
        self.dig.append(h(*a))

    def out(self):
        return {"violations": self.viol, "stats": self.stats, "sigs": self.sigs, "digest": h(self.dig), "simtime": self.simtime, "trace": self.trace, "sample": self.sample}


class Unsupported(Exception):
    """the harness cannot simulate what the code asked for: no verdict"""


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if "cosmic_profiles" in f.filename]
    w = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else ""
    text = str(e)
    if os.environ.get("SIM_SCRATCH"):       # the same text whatever the scratch folder is called
        text = re.sub(re.escape(os.environ["SIM_SCRATCH"]) + r"/r[^/ ']*", "<run>", text)
    return "%s: %s [%s]" % (type(e).__name__, text[:300], w)


def rel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.max(np.abs(a - b) / np.maximum(np.abs(b), 1e-300)) if a.size else 0.0


def same_num(a, b, rtol=1e-9, atol=0.0):
    """equal up to rounding, NaN equal to NaN"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    n = np.isnan(a) & np.isnan(b)
    with np.errstate(invalid="ignore"):
        return bool(np.all(n | (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def axis_same(u, v, tol):
    """unit vectors equal up to sign"""
    return min(np.max(np.abs(u - v)), np.max(np.abs(u + v))) <= tol


def shrink_list(l, keep=0):
    """ddmin-style candidates: the list with blocks removed"""
    n = len(l)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = l[:i] + l[i + size:]
            if len(c) >= keep and len(c) < n:
                yield c
        size //= 2


def isolated(fn):
    """run fn() in a forked copy of this process -> ('ok', value) | ('exc', text); simulator exits propagate"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                out = ("ok", fn())
            except Unsupported:
                out = ("harness", traceback.format_exc())
            except Exception as e:
                out = ("exc", exc_text(e))
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st))
    c = os.WEXITSTATUS(st)
    if c in (97, 98):
        os._exit(c)
    if c or not buf:
        raise RuntimeError("isolated call ended with status %d" % c)
    out = pickle.loads(buf)
    if out[0] == "harness":
        raise Unsupported(out[1])
    return out
