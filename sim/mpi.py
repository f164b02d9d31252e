"""Simulated MPI job: every rank is a forked process, exactly one runs at a time, and which one, when messages
arrive, and what fails where is decided here from a seed (or an explicit trace)."""
import hashlib, os, pickle, random, select, signal, socket, struct, sys, traceback, types
import numpy as np
from sim.util import Unsupported, exc_text


class MPIError(Exception):
    pass


# ------------------------------------------------------------------------------------------------- wire
def _send(s, obj):
    b = pickle.dumps(obj, protocol=4)
    s.sendall(struct.pack("<Q", len(b)) + b)


def _recvn(s, n):
    out = b""
    while len(out) < n:
        d = s.recv(min(1 << 20, n - len(out)))
        if not d:
            raise EOFError
        out += d
    return out


def _recv(s):
    return pickle.loads(_recvn(s, struct.unpack("<Q", _recvn(s, 8))[0]))


# ------------------------------------------------------------------------------------------------- rank side
class Datatype:
    def __init__(self, name, np_dtype):
        self.name, self.dtype = name, np.dtype(np_dtype)

    def Get_size(self):
        return self.dtype.itemsize
    size = property(Get_size)
    extent = size


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


OPS = {"SUM": lambda a, b: a + b, "MAX": lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b), "MIN": lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b),
       "PROD": lambda a, b: a * b, "LAND": lambda a, b: a and b, "LOR": lambda a, b: a or b, "BAND": lambda a, b: a & b, "BOR": lambda a, b: a | b}
IN_PLACE = "<IN_PLACE>"
TYPES = {"INT": "i4", "FLOAT": "f4", "DOUBLE": "f8", "LONG": "i8", "LONG_LONG": "i8", "INT32_T": "i4", "INT64_T": "i8", "UINT32_T": "u4", "UINT64_T": "u8", "UNSIGNED": "u4", "UNSIGNED_LONG": "u8",
         "SHORT": "i2", "CHAR": "i1", "BYTE": "u1", "BOOL": "?", "C_BOOL": "?", "SIGNED_CHAR": "i1", "INTEGER": "i4", "REAL": "f4", "DOUBLE_PRECISION": "f8", "COMPLEX": "c8", "DOUBLE_COMPLEX": "c16", "INT8_T": "i1", "UINT8_T": "u1",
         "INT16_T": "i2", "UINT16_T": "u2"}


def _bufspec(spec):
    """buffer argument -> (array, counts or None, displs or None)"""
    counts = displs = typ = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        for x in spec[1:]:
            if isinstance(x, Datatype):
                typ = x
            elif isinstance(x, str):
                typ = TYPEOBJ[x]
            elif isinstance(x, tuple) and len(x) == 2 and displs is None and counts is None and not np.isscalar(x[0]):
                counts, displs = x
            elif x is None:
                pass
            elif counts is None:
                counts = x
            elif displs is None:
                displs = x
    else:
        arr = spec
    if arr is None:
        return None, counts, displs, typ
    arr = np.asarray(arr)
    if arr.dtype == object:
        raise Unsupported("object buffer")
    if not arr.flags["C_CONTIGUOUS"]:
        raise ValueError("ndarray is not contiguous")
    if typ is not None and typ.dtype.itemsize != arr.dtype.itemsize:
        # elements are counted in units of the given type
        arr = arr.reshape(-1).view(typ.dtype)
    return arr, counts, displs, typ


TYPEOBJ = {}


class Comm:
    def __init__(self, job):
        self._job = job
        self.rank, self.size = job.rank, job.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _coll(self, name, root, payload, want_all):
        return self._job.request(("coll", name, root, payload, want_all))

    # objects
    def barrier(self):
        self._coll("barrier", 0, None, True)
    Barrier = barrier

    def gather(self, sendobj, root=0):
        return self._coll("gather", root, sendobj, False)

    def bcast(self, obj=None, root=0):
        r = self._coll("bcast", root, obj if self.rank == root else None, False)
        return obj if self.rank == root else r

    def scatter(self, sendobj=None, root=0):
        if self.rank == root and len(sendobj) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(sendobj)))
        return self._coll("scatter", root, sendobj if self.rank == root else None, False)

    def allgather(self, sendobj):
        return self._coll("allgather", 0, sendobj, True)

    def alltoall(self, sendobj):
        return [x[self.rank] for x in self._coll("allgather", 0, list(sendobj), True)]

    def _reduce(self, vals, op):
        op = op or MPI_SUM
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=None):
        return self._reduce(self._coll("allgather", 0, sendobj, True), op)

    def reduce(self, sendobj, op=None, root=0):
        r = self._coll("gather", root, sendobj, False)
        return self._reduce(r, op) if self.rank == root else None

    def scan(self, sendobj, op=None):
        return self._reduce(self._coll("allgather", 0, sendobj, True)[: self.rank + 1], op)

    def exscan(self, sendobj, op=None):
        v = self._coll("allgather", 0, sendobj, True)[: self.rank]
        return self._reduce(v, op) if v else None

    # buffers
    def Bcast(self, buf, root=0):
        a, c, d, t = _bufspec(buf)
        n = a.size if c is None else int(c)
        if self.rank == root:
            self._coll("Bcast", root, a.reshape(-1)[:n].tobytes(), False)
        else:
            b = self._coll("Bcast", root, None, False)
            if len(b) > n * a.itemsize:
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            self._fill(a, 0, b)

    def _fill(self, a, off, b):
        flat = a.reshape(-1)
        assert flat.base is not None or flat is a
        k = len(b) // a.itemsize
        flat[off:off + k] = np.frombuffer(b[: k * a.itemsize], dtype=a.dtype)

    def _place(self, recvbuf, parts):
        a, c, d, t = _bufspec(recvbuf)
        if c is None:
            per = a.size // self.size
            c = [per] * self.size
        elif np.isscalar(c):
            c = [int(c)] * self.size
        c = [int(x) for x in c]
        if d is None:
            d = [sum(c[:i]) for i in range(self.size)]
        for i, b in enumerate(parts):
            if len(b) > c[i] * a.itemsize:
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            if int(d[i]) + c[i] > a.size:
                raise MPIError("message truncated: receive buffer too small")
            self._fill(a, int(d[i]), b)

    def _bytes(self, sendbuf):
        a, c, d, t = _bufspec(sendbuf)
        n = a.size if c is None or not np.isscalar(c) else int(c)
        return a.reshape(-1)[:n].tobytes()

    def Gatherv(self, sendbuf, recvbuf, root=0):
        if isinstance(sendbuf, str):
            raise Unsupported("IN_PLACE")
        r = self._coll("Gatherv", root, self._bytes(sendbuf), False)
        if self.rank == root:
            self._place(recvbuf, r)
    Gather = Gatherv

    def Allgatherv(self, sendbuf, recvbuf):
        if isinstance(sendbuf, str):
            raise Unsupported("IN_PLACE")
        self._place(recvbuf, self._coll("Allgatherv", 0, self._bytes(sendbuf), True))
    Allgather = Allgatherv

    def Scatterv(self, sendbuf, recvbuf, root=0):
        parts = None
        if self.rank == root:
            a, c, d, t = _bufspec(sendbuf)
            if c is None or np.isscalar(c):
                c = [a.size // self.size if c is None else int(c)] * self.size
            if d is None:
                d = [sum(int(x) for x in c[:i]) for i in range(self.size)]
            parts = [a.reshape(-1)[int(d[i]):int(d[i]) + int(c[i])].tobytes() for i in range(self.size)]
        b = self._coll("Scatterv", root, parts, False)
        a, c, d, t = _bufspec(recvbuf)
        if len(b) > a.nbytes:
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        self._fill(a, 0, b)
    Scatter = Scatterv

    def Allreduce(self, sendbuf, recvbuf, op=None):
        a, c, d, t = _bufspec(recvbuf)
        src = a if isinstance(sendbuf, str) else _bufspec(sendbuf)[0]
        vals = self._coll("Allreduce", 0, src.copy(), True)
        a.reshape(-1)[:] = np.asarray(self._reduce(vals, op)).reshape(-1)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        src = _bufspec(recvbuf)[0] if isinstance(sendbuf, str) else _bufspec(sendbuf)[0]
        vals = self._coll("Reduce", root, src.copy(), False)
        if self.rank == root:
            _bufspec(recvbuf)[0].reshape(-1)[:] = np.asarray(self._reduce(vals, op)).reshape(-1)

    # point to point
    def send(self, obj, dest, tag=0):
        self._job.request(("send", dest, tag, obj))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return self._job.request(("recv", source, tag))

    def Send(self, buf, dest, tag=0):
        self._job.request(("send", dest, tag, self._bytes(buf)))

    def Recv(self, buf, source=-1, tag=-1, status=None):
        b = self._job.request(("recv", source, tag))
        a, c, d, t = _bufspec(buf)
        if len(b) > a.nbytes:
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        self._fill(a, 0, b)

    def Abort(self, code=1):
        self._job.request(("abort", code))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("the simulated communicator has no %s" % n)


MPI_SUM = Op("SUM", OPS["SUM"])


class Job:
    """what a rank process sees"""

    def __init__(self, rank, size, sock):
        self.rank, self.size, self.sock = rank, size, sock

    def request(self, msg):
        _send(self.sock, msg)
        ans = _recv(self.sock)
        if ans[0] == "raise":
            raise ans[1]
        if ans[0] == "die":
            os._exit(77)
        return ans[1]

    def point(self, name):
        """a place where the scheduler may switch ranks and where an environment fault may strike"""
        return self.request(("point", name))

    def install(self):
        m = types.ModuleType("mpi4py")
        M = types.ModuleType("mpi4py.MPI")
        for k, v in TYPES.items():
            TYPEOBJ[k] = Datatype(k, v)
            setattr(M, k, TYPEOBJ[k])
        for k, f in OPS.items():
            setattr(M, k, Op(k, f))
        M.IN_PLACE, M.ANY_SOURCE, M.ANY_TAG, M.PROC_NULL = IN_PLACE, -1, -1, -2
        M.Comm = M.Intracomm = Comm
        M.Datatype, M.Op, M.Exception = Datatype, Op, MPIError
        M.COMM_WORLD = Comm(self)
        M.COMM_SELF = None
        M.Wtime = lambda: 0.0
        M.Get_processor_name = lambda: "node%d" % self.rank
        M.Is_initialized = lambda: True
        M.Is_finalized = lambda: False
        M.Finalize = lambda: None
        m.MPI = M
        m.rc = types.SimpleNamespace()
        m.__path__ = []
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, M


class Solo(Job):
    """a run of a single process: every collective completes on the spot (no MPI runtime is started)"""

    def __init__(self):
        self.rank, self.size, self.mail = 0, 1, []

    def request(self, msg):
        if msg[0] == "coll":
            _, name, root, payload, wa = msg
            if root != 0:
                raise MPIError("MPI_ERR_ROOT: invalid root")
            if name in ("barrier", "Barrier"):
                return None
            if name in ("bcast", "Bcast"):
                return payload
            if name in ("scatter", "Scatterv"):
                return payload[0]
            return [payload]
        if msg[0] == "send":
            self.mail.append((msg[2], msg[3]))
            return None
        if msg[0] == "recv":
            for i, (t, o) in enumerate(self.mail):
                if msg[2] in (-1, t):
                    return self.mail.pop(i)[1]
            raise MPIError("receive without a matching message")
        if msg[0] == "abort":
            os._exit(int(msg[1]) or 1)
        return None


def solo():
    if "mpi4py" not in sys.modules:
        Solo().install()


def _rank_main(rank, size, sock, body, errfd):
    os.dup2(errfd, 2)
    job = Job(rank, size, sock)
    try:
        job.install()
        job.request(("start",))
        res = ("done", body(job))
    except Unsupported:
        res = ("harness", traceback.format_exc())
    except Exception as e:
        res = ("exc", exc_text(e), traceback.format_exc()[-1500:])
    except SystemExit as e:
        res = ("exc", "SystemExit: %s" % (e.code,), "")
    try:
        _send(sock, res)
    except OSError:
        pass
    os._exit(0)


# ------------------------------------------------------------------------------------------------- controller
class Result:
    pass


def run(size, body, sched, faults, timeout=60):
    """body(job) runs on every rank.  sched: {"seed", "policy", ["trace"]}; faults: [{"rank","at","kind"}] where at counts
    the rank's own fault points.  -> Result(ranks=[('done', v) | ('exc', text) | ('dead',) | ('hung',)], log, ...)"""
    rng = random.Random(sched["seed"])
    socks, pids = [], []
    for r in range(size):
        a, b = socket.socketpair()
        sys.stderr.flush(); sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            for s in socks:
                s.close()
            a.close()
            _rank_main(r, size, b, body, 2)
        b.close()
        a.settimeout(timeout)
        socks.append(a)
        pids.append(pid)
    res = Result()
    res.ranks = [None] * size
    res.faults = []
    res.mismatch = None
    res.trace = []
    res.points = [0] * size
    hsh = hashlib.sha256()
    answers = [None] * size       # deliverable answers
    pending = [None] * size       # collective a rank waits in: (index)
    seq = [0] * size
    inst = []                     # collective instances
    mail = [[] for _ in range(size)]
    waiting_recv = [None] * size
    live = set(range(size))
    prio = list(range(size)); rng.shuffle(prio)
    starved = rng.randrange(size)
    fmap = {}
    for f in faults:
        fmap.setdefault((f["rank"], f["at"]), f)
    eager = sched.get("eager", 1)
    steps = 0

    def settle():
        """which waiting collectives may complete"""
        for k, c in enumerate(inst):
            for r in list(c["wait"]):
                name, root, wa = c["name"], c["root"], c["all"]
                n = len(c["got"])
                if wa:
                    ok = n == size
                elif name in ("gather", "Gatherv", "Reduce"):
                    ok = (n == size) if r == root else (c["eager"][r] or root in c["got"])
                else:   # bcast, scatter
                    ok = (c["eager"][r] or n == size) if r == root else root in c["got"]
                if not ok:
                    continue
                c["wait"].discard(r)
                if name == "barrier":
                    v = None
                elif name in ("gather", "Gatherv", "Reduce"):
                    v = [c["got"][i] for i in range(size)] if r == root else None
                elif wa:
                    v = [c["got"][i] for i in range(size)]
                elif name in ("scatter", "Scatterv"):
                    v = c["got"][root][r]
                else:
                    v = c["got"][root]
                answers[r] = ("ok", v)
        for r in range(size):
            if waiting_recv[r] is not None:
                src, tag = waiting_recv[r]
                for i, (s, t, o) in enumerate(mail[r]):
                    if (src in (-1, s)) and (tag in (-1, t)):
                        mail[r].pop(i)
                        waiting_recv[r] = None
                        answers[r] = ("ok", o)
                        break

    def take(r):
        """read rank r's next message"""
        try:
            m = _recv(socks[r])
        except socket.timeout:
            raise RuntimeError("rank %d did not answer within %d s" % (r, timeout))
        except (EOFError, ConnectionError):
            m = ("dead",)
        hsh.update(repr((r, m[0], m[1] if m[0] in ("point", "coll") else "")).encode())
        if m[0] in ("done", "exc", "dead", "harness"):
            live.discard(r)
            res.ranks[r] = m
            if m[0] == "harness":
                raise Unsupported(m[1])
        elif m[0] == "start":
            answers[r] = ("ok", None)
        elif m[0] == "abort":
            for q in list(live):
                live.discard(q)
                res.ranks[q] = ("exc", "MPI_Abort(%s) by rank %d" % (m[1], r), "")
        elif m[0] == "point":
            f = fmap.pop((r, res.points[r]), None)
            res.points[r] += 1
            answers[r] = ("ok", None)
            if f:
                res.faults.append(f["kind"])
                if f["kind"] == "crash":
                    answers[r] = ("die",)
                else:
                    import errno
                    answers[r] = ("raise", OSError(getattr(errno, f["kind"].upper(), errno.EIO), "simulated %s: %s" % (f["kind"], m[1])))
        elif m[0] == "coll":
            _, name, root, payload, wa = m
            k = seq[r]
            seq[r] += 1
            if k == len(inst):
                inst.append({"name": name, "root": root, "all": wa, "got": {}, "wait": set(), "eager": [rng.random() < 0.5 if eager else False for _ in range(size)]})
            c = inst[k]
            if (c["name"], c["root"]) != (name, root):
                res.mismatch = "rank %d calls %s(root=%s) where another rank calls %s(root=%s)" % (r, name, root, c["name"], c["root"])
            c["got"][r] = payload
            c["wait"].add(r)
        elif m[0] == "send":
            mail[m[1]].append((r, m[2], m[3]))
            answers[r] = ("ok", None)
        elif m[0] == "recv":
            waiting_recv[r] = (m[1], m[2])
        settle()

    try:
        for r in range(size):
            take(r)
        tr = sched.get("trace")
        while live and not res.mismatch:
            can = [r for r in sorted(live) if answers[r] is not None]
            if not can:
                for r in live:
                    res.ranks[r] = ("hung",)
                break
            if tr is not None:
                r = tr[steps] if steps < len(tr) and tr[steps] in can else can[0]
            elif sched["policy"] == "starve" and len(can) > 1:
                r = rng.choice([x for x in can if x != starved])
            elif sched["policy"] == "prio":
                if rng.random() < 0.05:
                    rng.shuffle(prio)
                r = max(can, key=lambda x: prio[x])
            else:
                r = rng.choice(can)
            res.trace.append(r)
            steps += 1
            hsh.update(b"%d;" % r)
            a, answers[r] = answers[r], None
            _send(socks[r], a)
            take(r)
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        for s in socks:
            s.close()
    res.steps, res.hash = steps, hsh.hexdigest()[:16]
    return res
