"""Control of the simulated OpenMP runtime (libsimomp.so, preloaded)."""
import ctypes, os

SEQ, CHUNK, LOG, PCT, RACE, STARVE, REPLAY = 0, 1, 2, 3, 4, 5, 9
NAMES = {SEQ: "sequential", CHUNK: "chunk-assignment", LOG: "log-gap preemption", PCT: "PCT priorities",
         RACE: "race-directed", STARVE: "starved thread", REPLAY: "replay"}


class Rec(ctypes.Structure):
    _fields_ = [("region", ctypes.c_uint32), ("kind", ctypes.c_uint32), ("at", ctypes.c_uint64),
                ("frm", ctypes.c_int32), ("to", ctypes.c_int32)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        try:
            L.simomp_config
        except AttributeError:
            raise RuntimeError("libsimomp.so is not preloaded")
        u64, i = ctypes.c_uint64, ctypes.c_int
        L.simomp_config.argtypes = [i, u64, i, i, u64, i, i, u64, i]
        L.simomp_config.restype = None
        L.simomp_nrec.restype = ctypes.c_uint32
        _lib = L
    return _lib


def configure(sched):
    """sched: dict(policy, seed, threads, vary, horizon, k, log_max, step_limit, races[, trace])"""
    L = lib()
    trace = sched.get("trace")
    if trace is not None:
        arr = (Rec * max(1, len(trace)))(*[Rec(*r) for r in trace])
        L.simomp_set_replay(arr, len(trace))
    L.simomp_config(REPLAY if trace is not None else sched.get("policy", SEQ), sched.get("seed", 0), sched.get("threads", 1),
                    sched.get("vary", 0), sched.get("horizon", 100000), sched.get("k", 3), sched.get("log_max", 14),
                    sched.get("step_limit", 2_000_000_000), sched.get("races", 0))


def sequential():
    configure({"policy": SEQ, "threads": 1})


def stats():
    o = (ctypes.c_uint64 * 8)()
    lib().simomp_stats(o)
    return dict(steps=o[0], switches=o[1], forced=o[2], regions=o[3], small_teams=o[4], hash=o[5], races=o[6], flags=o[7])


def trace():
    n = lib().simomp_nrec()
    arr = (Rec * max(1, n))()
    lib().simomp_get_recs(arr)
    return [[r.region, r.kind, r.at, r.frm, r.to] for r in arr[:n]]


def overflow():
    return bool(lib().simomp_rec_overflow())


def flag_races():
    lib().simomp_flag_races()


def gen_sched(rng, horizon=20000, max_threads=8):
    """a seeded schedule description"""
    pol = rng.choices([CHUNK, LOG, PCT, RACE, STARVE], [2, 5, 3, 4, 2])[0]
    th = rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 8])
    return {"policy": pol, "seed": rng.getrandbits(60), "threads": min(th, max_threads), "vary": rng.choice([0, 1]),
            "horizon": rng.choice([horizon // 10 + 1, horizon, horizon * 4]), "k": rng.randint(1, 12), "log_max": rng.choice([3, 6, 9, 12, 15])}
