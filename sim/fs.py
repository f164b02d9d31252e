"""Simulated disk (libsimfs.so, LD_PRELOADed): numbered file operations below one directory, and a plan of what fails where."""
import ctypes, errno, os
OPEN, READ, WRITE, RENAME, UNLINK, MKDIR, SYNC, TRUNC = 1, 2, 4, 8, 16, 32, 64, 128
KIND = {"error": 1, "full": 2, "short": 3, "crash": 4, "torn": 5, "crash-after": 6, "broken": 7}
CRASHED = 88
_l = None


def lib():
    global _l
    if _l is None:
        l = ctypes.CDLL(os.path.join(os.environ["SIM_BUILD"], "libsimfs.so"))
        if not os.environ.get("LD_PRELOAD", "").count("simfs"):
            raise RuntimeError("libsimfs not preloaded")
        l.simfs_add.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_double]
        l.simfs_count.restype = ctypes.c_long
        l.simfs_hits.restype = ctypes.c_long
        l.simfs_hash.restype = ctypes.c_uint64
        l.simfs_log.restype = ctypes.c_char_p
        _l = l
    return _l


def start(prefix, faults=()):
    l = lib()
    l.simfs_start(os.path.realpath(prefix).encode())
    for f in faults:
        l.simfs_add(f["at"], KIND[f["kind"]], f.get("mask", 0xff), getattr(errno, f.get("errno", "EIO")), f.get("frac", 0.5))


def stop():
    lib().simfs_stop()


def heal():
    lib().simfs_heal()


def count():
    return lib().simfs_count()


def hits():
    return {k: lib().simfs_hits(v) for k, v in KIND.items() if lib().simfs_hits(v)}


def hash():
    return "%x" % lib().simfs_hash()


def log():
    return lib().simfs_log().decode(errors="replace")
