"""Warm process: imports the check once, then runs every scenario in a forked child of its own."""
import importlib, json, os, select, shutil, signal, sys, tempfile, time, traceback, faulthandler


def child(check, scenario, wfd, scratch):
    os.setpgid(0, 0)
    err = os.open(os.path.join(scratch, ".stderr"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0); os.dup2(err, 1); os.dup2(err, 2)
    code = 0
    faulthandler.enable(file=2, all_threads=False)
    try:
        from sim import omp
        try:
            omp.lib().simomp_report_fd(2)
        except RuntimeError:
            pass
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        os.chdir(work)
        res = check.run(scenario, work)
        data = json.dumps({"ok": True, "result": res}).encode()
    except BaseException:
        data = json.dumps({"ok": False, "error": traceback.format_exc()[-6000:]}).encode()
        code = 1
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:])
    os.close(wfd)
    os._exit(code)


def run_one(check, scenario, timeout):
    base = os.environ["SIM_SCRATCH"]
    scratch = tempfile.mkdtemp(prefix="r", dir=base)
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(check, scenario, w, scratch)
        os._exit(3)
    os.close(w)
    buf = b""
    timed_out = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    try:
        os.killpg(pid, signal.SIGKILL) if timed_out else None
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # stray grandchildren
    except OSError:
        pass
    os.close(r)
    try:
        with open(os.path.join(scratch, ".stderr"), errors="replace") as f:
            err = f.read()[-3000:]
    except OSError:
        err = ""
    shutil.rmtree(scratch, ignore_errors=True)
    out = {"wall": time.monotonic() - t0}
    if timed_out:
        out.update(status="timeout", error=err)
    elif os.WIFSIGNALED(st):
        out.update(status="signal", signal=os.WTERMSIG(st), error=err)
    elif os.WEXITSTATUS(st) in (97, 98):
        out.update(status="deadlock" if os.WEXITSTATUS(st) == 97 else "steplimit", error=err)
    else:
        try:
            m = json.loads(buf)
        except ValueError:
            m = {"ok": False, "error": "child exited %d without a result: %s" % (os.WEXITSTATUS(st), err)}
        if m["ok"]:
            out.update(status="ok", result=m["result"])
        else:
            out.update(status="error", error=m["error"] + "\n--stderr--\n" + err)
    return out


def main():
    check = importlib.import_module("checks." + sys.argv[1])
    inp, outp = os.fdopen(os.dup(0), "r"), os.fdopen(os.dup(1), "w")
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0); os.dup2(2, 1)
    if hasattr(check, "preload"):
        check.preload()
    outp.write("READY\n"); outp.flush()
    for line in inp:
        m = json.loads(line)
        o = run_one(check, m["scenario"], m.get("timeout", 120))
        o["id"] = m["id"]
        outp.write(json.dumps(o) + "\n"); outp.flush()


if __name__ == "__main__":
    main()
