"""C08: the result cache under concurrent callers."""
import copy, random, sys
import numpy as np
from sim import threads
from sim.util import *

ID, LEVEL = "C08", "exploration"
TECHNIQUE = "deterministic simulation: seeded scheduling of real threads at every bytecode of the cache, with simulated locks, memory pressure and failing functions; histories checked for linearizability against a sequential LRU model"
NOTE = ("Sampled histories of 2-4 threads and schedules. A miss is two atomic steps in the model (look up, store), so concurrent misses of one key may both compute; switches happen between bytecodes, which is finer than "
        "the current interpreter switches and covers other ones. Asynchronous exceptions inside the cache are not injected.")
LIBS = ["simomp"]
RUNS, RUNS_THOROUGH = 9000, 60000
TIME_UNIT = "scheduler steps (bytecodes of caching.py, lock operations, yields)"
RULE = ("One case = one seeded history (2-4 threads, 1-6 operations each: calls, statistics, clears) on one cache configuration under one seeded schedule, followed by a sequential probe of the contents. "
        "Non-trivial: at least one switch between threads inside an operation; distinct: by hash of the switch points.")
REAL = ["caching.lru_cache, np_cache_factory, _make_key, config", "CPython threads (one runs at a time)"]
STUB = ["RLock/Lock (simulated, same semantics)", "psutil.virtual_memory (seeded history, may fail)", "the wrapped function"]
ASSUMPTIONS = ["one bytecode is atomic"]


def preload():
    from checks import c01
    c01.preload()


def gen(rng, tier, i):
    wide = tier == "thorough"
    mode = rng.choice(["bounded"] * 4 + ["none", "none", "zero", "memory", "memory", "np", "np"])
    maxsize = {"none": None, "zero": 0}.get(mode, rng.choice([1, 1, 2, 2, 3, 5]))
    nkeys = rng.choice([1, 2, 3, 4, 6])
    keykind = rng.choice(["int", "pair", "kw", "str", "slow", "typed", "typedkw"]) if mode != "np" else rng.choice(["arr", "arr2", "list"])
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    ths = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6] + ([8] if wide else []))):
            r = rng.random()
            ops.append(["call", rng.randrange(nkeys)] if r < 0.8 else ["info"] if r < 0.92 else ["clear"])
        ths.append(ops)
    fails = [k for k in range(nkeys) if rng.random() < 0.12]
    flaky = {str(rng.randrange(12)): 1 for _ in range(rng.choice([0, 0, 1, 2]))}
    pol = rng.choice(["random", "random", "random", "pct"])
    return {"mode": mode, "maxsize": maxsize, "keys": keykind, "nkeys": nkeys, "threads": ths, "fails": fails, "flaky": flaky, "recurse": rng.random() < 0.15, "yields": rng.choice([0, 1, 3]),
            "gb": rng.choice([0, 0, 2]) if mode == "np" else 2, "mem": [rng.choice([1, 2, 8, 8]) for _ in range(rng.choice([1, 3, 6]))] if rng.random() < 0.8 else [8],
            "memfail": [rng.randrange(6)] if rng.random() < 0.15 else [],
            "sched": {"seed": rng.getrandbits(32), "policy": pol, "p": rng.choice([0.01, 0.03, 0.1, 0.4]), "depth": rng.choice([1, 2, 3, 5]), "horizon": rng.choice([150, 600, 2000])}}


class Slow:
    """key whose hash and equality can be preempted"""
    sched = None

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        if Slow.sched:
            Slow.sched.point(-10)
        return hash(self.v % 2)

    def __eq__(self, o):
        if Slow.sched:
            Slow.sched.point(-11)
        return isinstance(o, Slow) and self.v == o.v

    def __repr__(self):
        return "Slow(%d)" % self.v


def args_of(kind, k):
    """-> (args, kwargs) of key number k; every call makes fresh objects"""
    if kind == "int":
        return (k,), {}
    if kind == "str":
        return ("k%d" % k,), {}
    if kind == "pair":
        return (k % 2, "x%d" % (k // 2)), {}
    if kind == "kw":
        return [((1,), {"a": 2}), ((1, "a", 2), {}), ((), {"a": 2, "b": 1}), ((), {"b": 1, "a": 3}), ((1, 2), {}), ((1,), {"b": 2})][k]
    if kind == "slow":
        return (Slow(k),), {}
    if kind == "typed":
        return [((1,), {}), ((1.0,), {}), ((True,), {}), ((1, 2), {}), ((1.0, 2), {}), ((1, True), {})][k]
    if kind == "typedkw":
        return [((), {"a": 1}), ((), {"a": 1.0}), ((1,), {"a": 2}), ((1,), {"a": 2.0}), ((1.0,), {"a": 2}), ((), {"a": True})][k]
    if kind == "arr":
        return [(np.arange(4.0), 1), (np.arange(4.0).reshape(2, 2), 1), (np.arange(4), 1), (np.arange(4.0), 2), (np.zeros(0), 1), (np.zeros((0, 3)), 1)][k], {}
    if kind == "arr2":
        return [(np.arange(4.0), np.arange(2), "s"), (np.arange(2), np.arange(4.0), "s"), (np.arange(4.0), np.arange(2), "t"), (np.arange(4.0).reshape(4, 1), np.arange(2), "s"),
                (np.arange(4, dtype=np.float32), np.arange(2), "s"), (np.arange(4.0), np.arange(2, dtype=np.int32), "s")][k], {}
    if kind == "list":
        return [(np.arange(3), [[1, 2], [3]], 1), (np.arange(3), [[1], [2, 3]], 1), (np.arange(3), [[1, 2, 3]], 1), (np.arange(3), [[1, 2], [3]], 2), (np.arange(3), [[], [1, 2, 3]], 1), (np.arange(3), [], 1)][k], {}


def show(args, kw):
    """what the function sees, as a comparable value"""
    def f(a):
        if isinstance(a, np.ndarray):
            return ("arr", a.dtype.str, a.shape, a.tobytes())
        if isinstance(a, Slow):
            return ("slow", a.v)
        if isinstance(a, list):
            return ("list", [list(x) for x in a])
        return (type(a).__name__, a)
    return repr(([f(a) for a in args], sorted((k, f(v)) for k, v in kw.items())))


class Boom(Exception):
    pass


class NoMemInfo(OSError):
    pass


def run(sc, work):
    import cosmic_profiles as cp
    from cosmic_profiles.common import caching
    import psutil, functools
    o = Obs()
    sched = threads.Sched(sc["sched"], {caching.__file__, caching.lru_cache.__code__.co_filename})
    saved = threading_patch(caching)
    samples = []   # (step, available)
    limit_gb = sc["gb"]
    nmem = [0]

    def vm():
        n = nmem[0]
        nmem[0] += 1
        sched.point(-20)
        if n in sc["memfail"]:
            o.count("fault:memory query failed")
            cur().setdefault("memfail", sched.now())
            raise NoMemInfo(5, "simulated failure")
        av = sc["mem"][n % len(sc["mem"])]
        if av < 2:
            o.count("fault:memory pressure")
        op = cur()
        op.setdefault("samples", []).append(av < limit_gb)
        return type("svmem", (), {"available": int(av * 1024 ** 3), "total": 2 ** 40, "percent": 1.0, "used": 0, "free": 0})()
    psutil.virtual_memory = vm
    hist = []
    stack = {}

    def cur():
        return stack.setdefault(sched.me(), [{}])[-1]
    ncomp = [0]

    def fn(*a, **k):
        op = cur()
        op["fstart"] = sched.now()
        op["computed"] = True
        n = ncomp[0]
        ncomp[0] += 1
        seen = show(a, k)
        op["saw"] = seen
        for _ in range(sc["yields"]):
            sched.point(-30)
        kn = op["key"]
        if sc["recurse"] and kn + 1 < sc["nkeys"]:
            call(kn + 1)
            op = cur()
        for _ in range(sc["yields"]):
            sched.point(-31)
        op["fend"] = sched.now()
        if kn in sc["fails"] or str(n) in sc["flaky"]:
            o.count("fault:function failed")
            op["boom"] = n
            raise Boom(n)
        op["comp"] = n
        return [n, seen] if sc["mode"] != "np" else (n, seen)
    try:
        if sc["mode"] == "np":
            cp.updateCachingMaxGBs(sc["gb"]); cp.updateCachingMaxSize(sc["maxsize"])
            f = caching.np_cache_factory({"arr": 1, "arr2": 2, "list": 1}[sc["keys"]], 1 if sc["keys"] == "list" else 0)(fn)
        else:
            f = caching.lru_cache(maxsize=sc["maxsize"], typed=sc["keys"] in ("typed", "typedkw"), use_memory_up_to=limit_gb * 1024 ** 3 if sc["mode"] == "memory" else False)(fn)
    finally:
        threading_unpatch(caching, saved)

    def call(kn, probe=False):
        args, kw = args_of(sc["keys"], kn)
        op = {"op": "call", "key": kn, "want": show(args, kw), "start": sched.now(), "t": sched.me()}
        hist.append(op)
        stack.setdefault(sched.me(), [{}]).append(op)
        try:
            r = f(*args, **kw)
            op["ret"] = (r[0], r[1])
        except Boom as e:
            op["raised"] = e.args[0]
            if stack[sched.me()][-2].get("op") == "call":
                pass
        except NoMemInfo:
            op["raised"] = "mem"
        except threads.Stop:
            raise
        except Exception as e:
            op["error"] = exc_text(e)
        finally:
            stack[sched.me()].pop()
            op["end"] = sched.now()
            sched.step += 1

    def do(x):
        if x[0] == "call":
            call(x[1] % sc["nkeys"])
            return
        op = {"op": x[0], "start": sched.now(), "t": sched.me()}
        hist.append(op)
        try:
            if x[0] == "info":
                i = f.cache_info()
                op["info"] = (i.hits, i.misses, i.currsize, i.maxsize)
            else:
                f.cache_clear()
        except Exception as e:
            op["error"] = exc_text(e)
        op["end"] = sched.now()
        sched.step += 1

    def body(ops):
        def g():
            for x in ops:
                sched.point(-40)
                do(x)
        return g
    threads.SimLock.sched = Slow.sched = sched
    outcome = sched.run([body(t) for t in sc["threads"]])
    o.count("steps", sched.step); o.count("switches", len(sched.switches)); o.count("fault:preemption", len(sched.switches)); o.count("mode:" + sc["mode"])
    o.simtime = sched.step
    o.trace = sched.switches
    o.log(sched.sig, sched.step)
    if len(sched.switches) > len(sc["threads"]):
        o.sigs.append("%x" % sched.sig)
    if outcome == "deadlock":
        o.v("deadlock", "the threads wait for each other: %s" % describe(hist))
        return o.out()
    if outcome == "steplimit":
        o.v("no-progress", "no end within %d steps" % sched.bound)
        return o.out()
    # sequential probe of what is cached
    try:
        for x in [["info"]] + [["call", k] for k in range(sc["nkeys"])] + [["info"]] + [["call", k] for k in range(sc["nkeys"] - 1, -1, -1)] + [["info"]]:
            sched.step += 1
            do(x)
    except RuntimeError as e:
        o.v("deadlock", "a lock is still held after all calls ended (%s)" % e)
        return o.out()
    o.log(describe(hist))
    o.count("operations", len(hist))
    for op in hist:
        if "error" in op:
            o.v("exception", "%s %s: %s" % (op["op"], op.get("key"), op["error"]))
        if op["op"] == "call":
            if "ret" in op and op["ret"][1] != op["want"]:
                o.v("wrong-result", "call with %s answered with the result for %s" % (op["want"], op["ret"][1]))
            if op.get("saw") and op["saw"] != op["want"]:
                o.v("wrong-arguments", "call with %s computed for %s" % (op["want"], op["saw"]))
            if "boom" in op and op.get("raised") != op["boom"]:
                o.v("exception-swallowed", "the function failed in call no. %s, the caller got %s" % (op["key"], op.get("ret")))
            if "raised" in op and op["raised"] != "mem" and op.get("boom") != op["raised"]:
                o.v("exception-cached", "a call got the exception of another call (%s)" % op["raised"])
            if "comp" in op and "ret" in op and op["ret"][0] != op["comp"]:
                o.count("answers taken from a concurrent computation")
        elif op["op"] == "info" and "info" in op:
            b = sc["maxsize"] if not (sc["mode"] == "memory" or (sc["mode"] == "np" and sc["gb"])) else None
            if b is not None and op["info"][2] > b:
                o.v("over-bound", "the cache holds %d entries, its bound is %d" % (op["info"][2], b))
            if op["info"][3] != b:
                o.v("wrong-info", "maxsize reported as %s, is %s" % (op["info"][3], b))
    if not o.viol:
        ok, n = linearizable(sc, hist)
        o.count("linearization states", n)
        if ok is None:
            o.count("linearization undecided")
        elif not ok:
            o.v("not-linearizable", "no sequential order on a %s cache explains: %s" % (name(sc), describe(hist)))
    o.sample = "%s cache, %d threads with %s, keys %s, %d switches" % (name(sc), len(sc["threads"]), sc["threads"], sc["keys"], len(sched.switches))
    return o.out()


def name(sc):
    if sc["mode"] == "memory" or (sc["mode"] == "np" and sc["gb"]):
        return "memory-limited"
    return "unlimited" if sc["maxsize"] is None else "%d-entry" % sc["maxsize"]


def describe(hist):
    out = []
    for op in hist:
        t = "T%s" % op["t"] if op["t"] is not None else "end"
        if op["op"] == "call":
            r = ("computed %s" % op.get("comp") if op.get("computed") else "hit %s" % (op.get("ret") or ("?",))[0]) if "raised" not in op else "raised"
            out.append("%s[%d-%d] f(%d) %s" % (t, op["start"], op.get("end", -1), op["key"], r))
        else:
            out.append("%s[%d-%d] %s %s" % (t, op["start"], op.get("end", -1), op["op"], op.get("info", "")))
    return "; ".join(out)


def threading_patch(caching):
    import threading, functools, _thread
    saved = {n: getattr(caching, n) for n in ("RLock", "Lock", "allocate_lock") if hasattr(caching, n)}
    g = [(threading, "RLock", threads.SimLock), (threading, "Lock", threads.SimPlainLock), (_thread, "RLock", threads.SimLock), (_thread, "allocate_lock", threads.SimPlainLock), (functools, "RLock", threads.SimLock)]
    s2 = [(m, n, getattr(m, n)) for m, n, _ in g if hasattr(m, n)]
    for n in saved:
        setattr(caching, n, threads.SimLock if n == "RLock" else threads.SimPlainLock)
    for m, n, c in g:
        if hasattr(m, n):
            setattr(m, n, c)
    return saved, s2


def threading_unpatch(caching, s):
    for n, v in s[0].items():
        setattr(caching, n, v)
    for m, n, v in s[1]:
        setattr(m, n, v)


# ------------------------------------------------------------------------------------------- linearizability
def linearizable(sc, hist, cap=200000):
    """search for a sequential order of lookups, stores, queries and clears.  State: (entries oldest first, hits, misses, full)"""
    memory = sc["mode"] == "memory" or (sc["mode"] == "np" and sc["gb"])
    maxsize = None if memory else sc["maxsize"]
    ev = []          # (kind, lo, hi, op, after)
    for op in hist:
        if op["op"] == "call":
            if not op.get("computed"):
                ev.append(("hit", op["start"], op["end"], op, None))
            else:
                if maxsize != 0:
                    ev.append(("miss", op["start"], op["fstart"], op, None))
                    a = len(ev) - 1
                else:
                    a = None
                if "boom" not in op:
                    ev.append(("store", op["fend"], op["end"], op, a))
        else:
            ev.append((op["op"], op["start"], op["end"], op, None))
    n = len(ev)
    order = sorted(range(n), key=lambda i: ev[i][1])
    full0 = (1 << n) - 1
    seen = set()
    stack = [(0, ((), 0, 0, False))]
    count = 0
    while stack:
        done, st = stack.pop()
        if done == full0:
            return True, count
        if (done, st) in seen:
            continue
        seen.add((done, st))
        count += 1
        if count > cap:
            return None, count
        bound = min(ev[i][2] for i in range(n) if not done >> i & 1)
        for i in order:
            if done >> i & 1:
                continue
            if ev[i][1] > bound:
                break
            if ev[i][4] is not None and not done >> ev[i][4] & 1:
                continue
            for s in apply(ev[i], st, maxsize, memory):
                stack.append((done | 1 << i, s))
    return False, count


def apply(e, st, maxsize, memory):
    kind, op = e[0], e[3]
    ent, hits, misses, full = st
    if kind == "info":
        if "info" not in op or op["info"][:3] == (hits, misses, len(ent)):
            yield st
        return
    if kind == "clear":
        yield ((), 0, 0, False)
        return
    k = op["key"]
    pos = [i for i, x in enumerate(ent) if x[0] == k]
    if kind == "miss":
        if not pos:
            yield st
        return
    if kind == "hit":
        if pos and ent[pos[0]][1] == op["ret"][0]:
            p = pos[0]
            ne = ent[:p] + ent[p + 1:] + (ent[p],) if maxsize is not None or memory else ent
            yield (ne, hits + 1, misses, full)
        return
    # store
    if maxsize == 0:
        yield (ent, hits, misses + 1, full)
        return
    comp = op.get("comp")
    broken = op.get("raised") == "mem"
    if broken:
        yield st
    if pos:
        p = pos[0]
        for old in (True, False):
            x = ent[p] if old else (k, comp)
            yield (ent[:p] + (x,) + ent[p + 1:], hits, misses + 1, full)
            if maxsize is not None or memory:
                yield (ent[:p] + ent[p + 1:] + (x,), hits, misses + 1, full)
        return
    new = ent + ((k, comp),)
    if memory:
        if full:
            yield (new[1:], hits, misses + 1, True)
        else:
            s = op.get("samples")
            f = bool(s and s[-1])
            yield (new, hits, misses + 1, f)
            if broken:
                yield (new, hits, misses, f)
        return
    if maxsize is not None and len(new) > maxsize:
        new = new[1:]
    yield (new, hits, misses + 1, full)


def pin(sc, trace):
    sc["sched"] = dict(sc["sched"], trace=trace)
    return sc


def shrinks(sc):
    tr = sc["sched"].get("trace")
    if tr is not None:
        for c in shrink_list(tr):
            yield dict(sc, sched=dict(sc["sched"], trace=c))
    for t in range(len(sc["threads"])):
        if len(sc["threads"]) > 1 and tr is None:
            yield dict(sc, threads=sc["threads"][:t] + sc["threads"][t + 1:])
        for c in shrink_list(sc["threads"][t], 1 if tr is None else 0):
            x = copy.deepcopy(sc["threads"]); x[t] = c
            yield dict(sc, threads=x)
    if sc["fails"]:
        yield dict(sc, fails=[])
    if sc["flaky"]:
        yield dict(sc, flaky={})
    if sc["memfail"]:
        yield dict(sc, memfail=[])
    if sc["recurse"]:
        yield dict(sc, recurse=False)
    if sc["yields"] > 1:
        yield dict(sc, yields=1)
