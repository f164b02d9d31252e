"""Simulated process pool standing in for pathos' ProcessingPool (and multiprocessing pools).

The workers are real forked processes (own memory, own random state, arguments pickled), but only one
ever runs at a time: a seeded scheduler decides which idle worker takes the next chunk, whose chunk
finishes next, which worker is stalled, and in which worker an allocation or the task itself fails."""
import os, pickle, random, sys
import dill
from sim.util import Unsupported

W = None          # the world of the present run


class World:
    """spec: seed, ncpu (int or None: the platform cannot tell), stall (0..1), faults [{"map","task","kind": "task"|"alloc"|"answer","nth"}], trace"""

    def __init__(self, spec):
        self.spec, self.rng, self.trace, self.maps, self.hits, self.nworkers, self.state, self.tasks, self.forks = spec, random.Random(spec["seed"]), [], 0, [], [], {}, 0, 0
        self.replay = list(spec["trace"]) if spec.get("trace") is not None else None
        self.order = []

    def pick(self, n):
        """one choice among n"""
        if self.replay is not None:
            k = self.replay.pop(0) if self.replay else 0
            k = min(k, n - 1)
        else:
            k = self.rng.randrange(n)
        self.trace.append(k)
        return k


def _worker(r, w):
    import numpy as np
    rf, wf = os.fdopen(r, "rb"), os.fdopen(w, "wb")
    real = {n: getattr(np, n) for n in ("zeros", "hstack", "sum", "array")}
    while True:
        h = rf.read(8)
        if len(h) < 8:
            os._exit(0)
        fn, items, faults = dill.loads(rf.read(int.from_bytes(h, "little")))
        out, fired = None, []
        try:
            res = []
            for k, it in enumerate(items):
                f = faults.get(k)
                if f and f["kind"] == "task":
                    fired.append(f["kind"])
                    raise MemoryError("simulated: worker out of memory")
                if f and f["kind"] == "alloc":
                    left = [f["nth"]]

                    def wrap(name):
                        def g(*a, **kw):
                            # only the library's own allocations: scipy itself reports some as unfit bounds
                            if not str(sys._getframe(1).f_globals.get("__name__", "")).startswith("cosmic_profiles"):
                                return real[name](*a, **kw)
                            left[0] -= 1
                            if left[0] == 0:
                                fired.append("alloc")
                                raise MemoryError("simulated: Unable to allocate array")
                            return real[name](*a, **kw)
                        return g
                    for n in real:
                        setattr(np, n, wrap(n))
                try:
                    res.append(fn(*it))
                finally:
                    for n, v in real.items():
                        setattr(np, n, v)
                if f and f["kind"] == "answer":
                    fired.append("answer")
                    raise OSError(12, "simulated: result could not be sent back")
            out = dill.dumps(("ok", res, fired))
        except BaseException as e:
            try:
                out = dill.dumps(("exc", e, fired))
            except Exception:
                out = dill.dumps(("exc", RuntimeError(repr(e)), fired))
        wf.write(len(out).to_bytes(8, "little") + out)
        wf.flush()


class _Proc:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1); os.close(r2)
            try:
                _worker(r1, w2)
            finally:
                os._exit(3)
        os.close(r1); os.close(w2)
        self.w, self.r = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    def run(self, fn, items, faults):
        b = dill.dumps((fn, items, faults))
        self.w.write(len(b).to_bytes(8, "little") + b)
        self.w.flush()
        h = self.r.read(8)
        if len(h) < 8:
            raise Unsupported("a simulated worker died")
        return dill.loads(self.r.read(int.from_bytes(h, "little")))

    def close(self):
        try:
            self.w.close(); self.r.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, 9)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def _world():
    if W is None:
        raise Unsupported("process pool used outside a simulated world")
    return W


def _execute(procs, fn, tasks, chunksize=None):
    """-> list of (index, 'ok', result) | (index, 'exc', e) in order of completion"""
    w = _world()
    mapno, w.maps = w.maps, w.maps + 1
    n = len(procs)
    if chunksize is None:
        chunksize, extra = divmod(len(tasks), n * 4)
        chunksize += bool(extra)
    chunksize = max(1, chunksize)
    queue = [(i, tasks[i:i + chunksize]) for i in range(0, len(tasks), chunksize)]
    busy, out, stalled = {}, [], None
    faults = {f["task"]: f for f in w.spec.get("faults", []) if f["map"] == mapno}
    if n > 1 and w.spec.get("stall"):
        stalled = w.pick(n)
    while queue or busy:
        idle = [p for p in range(n) if p not in busy]
        # either an idle worker takes the next chunk, or a busy one finishes
        acts = ([("take", p) for p in idle] if queue else []) + [("end", p) for p in sorted(busy) if p != stalled or (not queue and len(busy) == 1)]
        if not acts:
            acts = [("end", p) for p in sorted(busy)]
        a, p = acts[w.pick(len(acts))] if len(acts) > 1 else acts[0]
        if a == "take":
            busy[p] = queue.pop(0)
            w.order.append((mapno, "take", p, busy[p][0]))
        else:
            i, chunk = busy.pop(p)
            fl = {k: faults[i + k] for k in range(len(chunk)) if i + k in faults}
            kind, val, fired = procs[p].run(fn, chunk, fl)
            w.hits += fired
            w.order.append((mapno, "end", p, i))
            w.tasks += len(chunk)
            if kind == "ok":
                out += [(i + k, "ok", v) for k, v in enumerate(val)]
            else:
                out += [(i + k, "exc", val) for k in range(len(chunk))]
    return out


class _Result:
    def __init__(self, f):
        self.f, self.v = f, None

    def get(self, timeout=None):
        if self.v is None:
            self.v = [self.f()]
        return self.v[0]

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        try:
            self.get()
            return True
        except Exception:
            return False


class _Engine:
    """the operations common to pathos and multiprocessing pools, on lists of argument tuples"""

    def __init__(self, n):
        self.n, self.procs = n, []
        w = _world()
        w.nworkers.append(n)
        for _ in range(n):
            self.procs.append(_Proc())
            w.forks += 1

    def ordered(self, fn, tasks, chunksize=None):
        out = _execute(self.procs, fn, tasks, chunksize)
        for i, k, v in out:
            if k == "exc":
                raise v
        return [v for i, k, v in sorted(out, key=lambda t: t[0])]

    def each(self, fn, tasks, ordered, chunksize=1):
        out = _execute(self.procs, fn, tasks, chunksize)
        if ordered:
            out = sorted(out, key=lambda t: t[0])

        def it():
            for i, k, v in out:
                if k == "exc":
                    raise v
                yield v
        return it()

    def close(self):
        for p in self.procs:
            p.close()
        self.procs = []


def _ncpu():
    w = _world()
    return w.spec["ncpu"] or w.spec.get("fallback", 3)


class SimPathosPool:
    def __init__(self, *args, **kwds):
        n = args[0] if args else None
        for k in ("nodes", "ncpus", "processes"):
            if k in kwds:
                n = kwds.pop(k)
        self._n = int(n) if n else _ncpu()
        self._id = kwds.pop("id", None) or self._n
        self._serve()

    def _serve(self):
        st = _world().state
        e = st.get(self._id)
        if e is None or e.n != self._n or not e.procs:
            if e is not None:
                e.close()
            st[self._id] = e = _Engine(self._n)
        return e

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def map(self, f, *args, **kwds):
        return self._serve().ordered(f, list(zip(*args)), kwds.get("chunksize"))

    def imap(self, f, *args, **kwds):
        return self._serve().each(f, list(zip(*args)), True, kwds.get("chunksize", 1))

    def uimap(self, f, *args, **kwds):
        return self._serve().each(f, list(zip(*args)), False, kwds.get("chunksize", 1))

    def amap(self, f, *args, **kwds):
        return _Result(lambda: self.map(f, *args, **kwds))

    def pipe(self, f, *args, **kwds):
        from functools import partial
        return self._serve().ordered(partial(f, **kwds), [args])[0]

    def apipe(self, f, *args, **kwds):
        return _Result(lambda: self.pipe(f, *args, **kwds))

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass

    def restart(self, force=False):
        self.clear()
        self._serve()

    def clear(self):
        e = _world().state.pop(self._id, None)
        if e:
            e.close()
    _clear = clear
    ncpus = nodes = property(lambda self: self._n)


class SimMpPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if initializer is not None or maxtasksperchild is not None:
            raise Unsupported("pool initializer")
        self._e = _Engine(processes or _ncpu())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def map(self, f, it, chunksize=None):
        return self._e.ordered(f, [(x,) for x in it], chunksize)

    def starmap(self, f, it, chunksize=None):
        return self._e.ordered(f, [tuple(x) for x in it], chunksize)

    def imap(self, f, it, chunksize=1):
        return self._e.each(f, [(x,) for x in it], True, chunksize)

    def imap_unordered(self, f, it, chunksize=1):
        return self._e.each(f, [(x,) for x in it], False, chunksize)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        it = list(it)
        return _Result(lambda: self.map(f, it, chunksize))

    def apply(self, f, args=(), kwds={}):
        from functools import partial
        return self._e.ordered(partial(f, **kwds), [tuple(args)])[0]

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return _Result(lambda: self.apply(f, args, kwds))

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        self._e.close()


_real_affinity = os.sched_getaffinity


def install():
    """to be called before the library is imported"""
    import pathos.multiprocessing as pm
    import pathos.pools as pp
    import multiprocessing, multiprocessing.pool
    for m in (pm, pp):
        for n in ("ProcessingPool", "ProcessPool"):
            setattr(m, n, SimPathosPool)
    pm._ProcessPool = pp._ProcessPool = SimMpPool
    multiprocessing.Pool = SimMpPool


def start(spec):
    global W
    W = World(spec)
    if spec["ncpu"] is None:
        if hasattr(os, "sched_getaffinity"):
            del os.sched_getaffinity
    else:
        os.sched_getaffinity = lambda pid: set(range(spec["ncpu"]))
    c = spec["ncpu"] or spec.get("fallback", 3)
    os.cpu_count = lambda: c
    return W


def stop():
    for e in W.state.values():
        e.close()
    W.state.clear()


def gen(rng, nmap=1, ntask=10, faulty=0.3):
    f = []
    if rng.random() < faulty:
        for _ in range(rng.choice([1, 1, 2])):
            f.append({"map": rng.randrange(nmap), "task": rng.randrange(max(1, ntask)), "kind": rng.choice(["task", "alloc", "alloc", "answer"]), "nth": rng.choice([1, 2, 3, 5, 8])})
    return {"seed": rng.getrandbits(48), "ncpu": rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 16, None]), "fallback": rng.choice([1, 2, 4]), "stall": rng.random() < 0.4, "faults": f}
