"""Instrumented build of /repo's current working tree.

Every .py/.pyx/.pxd/.pxi of cosmic_profiles (tests and the documentation copy excluded) is copied to
a directory named by the hash of its contents, every .pyx is cythonized and compiled with the flags
of the shipped build plus -fsanitize=thread.  The sanitizer is used only for its *calls*: neither
libtsan nor libgomp is linked; the __tsan_* and GOMP_*/omp_* symbols are resolved at load time by
libsimomp.so (LD_PRELOAD), which is the simulator's scheduler.
"""
import time, fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VENV_PY = "/opt/venv/bin/python"
EXCL = ("tests", "for_docs")


class BuildError(Exception):
    pass


def sources():
    out = []
    root = os.path.join(REPO, "cosmic_profiles")
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in EXCL]
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h")):
                out.append(os.path.normpath(os.path.join("cosmic_profiles", rel, f)))
    return out


def tree_hash():
    h = hashlib.sha256()
    for s in sources():
        h.update(s.encode() + b"\0")
        with open(os.path.join(REPO, s), "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for c in ("simomp.c", "simfs.c"):
        p = os.path.join(VERIF, "sim", "c", c)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def build():
    """Returns the build directory (containing cosmic_profiles/, libsimomp.so, libsimfs.so)."""
    hsh = tree_hash()
    dest = os.path.join(BUILD, hsh)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "DONE")):
            os.utime(dest)
            return dest
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        # keep the cache of old trees small, without taking one away that a check may be running from
        old = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and os.path.basename(d) != "ccache"), key=os.path.getmtime)
        for d in old[:-6]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(dest)
        try:
            _build(dest)
        except BaseException:
            shutil.rmtree(dest, ignore_errors=True)
            raise
        open(os.path.join(dest, "DONE"), "w").close()
    return dest


def _build(dest):
    srcs = sources()
    for s in srcs:
        t = os.path.join(dest, s)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, s), t)
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "200M"
    env["PYTHONHASHSEED"] = "0"
    for k in ("LD_PRELOAD", "PYTHONPATH", "PYTHONHOME"):
        env.pop(k, None)
    np_inc = subprocess.check_output([VENV_PY, "-c", "import numpy;print(numpy.get_include())"], text=True, env=env).strip()
    py_inc = subprocess.check_output([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True, env=env).strip()
    cflags = ["-fno-strict-overflow", "-DNDEBUG", "-g0", "-O2", "-w", "-fPIC", "-fopenmp", "-fsanitize=thread",
              "-I" + np_inc, "-I" + py_inc, "-I."]

    def one(px):
        mod = px[:-4].replace("/", ".")
        c = px[:-4] + ".c"
        o = px[:-4] + ".o"
        _run([VENV_PY, "-m", "cython", "--module-name", mod, px, "-o", c], cwd=dest, env=env)
        _run(["gcc"] + cflags + ["-c", c, "-o", o], cwd=dest, env=env)
        # linked without -fopenmp/-fsanitize: the runtime symbols stay undefined
        _run(["gcc", "-shared", o, "-o", px[:-4] + ".so"], cwd=dest, env=env)
        os.remove(os.path.join(dest, o))
        os.remove(os.path.join(dest, c))

    def clib(name):
        src = os.path.join(VERIF, "sim", "c", name + ".c")
        if os.path.exists(src):
            _run(["gcc", "-O2", "-g", "-Wall", "-shared", "-fPIC", "-I" + py_inc, src, "-o", os.path.join(dest, "lib%s.so" % name), "-ldl", "-lpthread"], env=env)

    pyx = sorted((s for s in srcs if s.endswith(".pyx")), key=lambda s: -os.path.getsize(os.path.join(dest, s)))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fs = [ex.submit(one, p) for p in pyx] + [ex.submit(clib, n) for n in ("simomp", "simfs")]
        for f in fs:
            f.result()


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
