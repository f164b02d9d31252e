"""Real Python threads run one at a time; which one runs next is decided at every bytecode of the traced files, at lock
operations and at explicit yield points, from a seed or from a recorded list of switches."""
import _thread, random, sys, threading
_alloc = _thread.allocate_lock


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, spec, files, bound=200000):
        self.spec, self.files, self.bound = spec, files, bound
        self.rng = random.Random(spec["seed"])
        self.n = 0                # threads
        self.sem, self.state, self.why = [], [], []
        self.cur = None
        self.step = 0
        self.switches = []        # [(step, to)]
        self.done = _alloc(); self.done.acquire()
        self.outcome = None
        self.local = threading.local()
        self.forced = dict((a, b) for a, b in spec["trace"]) if "trace" in spec else None
        self.prio = None
        self.points = set()
        self.sig = 0

    # ---- called by threads
    def me(self):
        return getattr(self.local, "id", None)

    def point(self, where=0):
        """the current thread could be preempted here"""
        i = self.me()
        if i is None or self.outcome:
            return
        self.step += 1
        if self.step > self.bound:
            self._end("steplimit")
        t = self._choose(i)
        if t != i:
            self._to(i, t, where)

    def block(self, pred):
        """wait until pred()"""
        i = self.me()
        if i is None:
            if not pred():
                raise RuntimeError("the controller would block for ever")
            return
        while not pred():
            self.state[i] = pred
            c = [j for j in range(self.n) if j != i and self._can(j)]
            if not c:
                self._end("deadlock")
            self.step += 1
            t = self._pick(c, i)
            self._to(i, t, -1)
            self.state[i] = True

    def now(self):
        return self.step

    # ---- internal
    def _can(self, j):
        s = self.state[j]
        return s is True or (callable(s) and s())

    def _end(self, what):
        self.outcome = what
        self.done.release()
        _alloc_block = _alloc(); _alloc_block.acquire(); _alloc_block.acquire()   # never runs again

    def _pick(self, c, i):
        if self.forced is not None:
            t = self.forced.get(self.step)
            return t if t in c else c[0]
        if self.spec["policy"] == "pct":
            return max(c, key=lambda j: self.prio[j])
        return self.rng.choice(c)

    def _choose(self, i):
        c = None
        if self.forced is not None:
            t = self.forced.get(self.step)
            return t if t is not None and t < self.n and self._can(t) else i
        pol = self.spec["policy"]
        if pol == "pct":
            if self.step in self.change:
                self.prio[i] = -self.change[self.step]
            c = [j for j in range(self.n) if self._can(j)]
            return max(c, key=lambda j: self.prio[j])
        if self.rng.random() >= self.spec["p"]:
            return i
        c = [j for j in range(self.n) if self._can(j)]
        return self.rng.choice(c)

    def _to(self, i, t, where):
        self.switches.append([self.step, t])
        self.sig = hash((self.sig, i, t, where)) & 0xffffffffffff
        self.cur = t
        self.sem[t].release()
        self.sem[i].acquire()
        if self.outcome:
            x = _alloc(); x.acquire(); x.acquire()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode":
            self.point(frame.f_lasti)
        return self._local

    def run(self, bodies):
        sys._getframe().f_trace_opcodes = True   # otherwise the first thread gets no opcode events
        self.n = len(bodies)
        self.prio = list(range(1, self.n + 1)); self.rng.shuffle(self.prio)
        if self.spec["policy"] == "pct":
            self.change = {self.rng.randrange(1, self.spec.get("horizon", 1500)): k + 1 for k in range(self.spec["depth"])}
        for i in range(self.n):
            l = _alloc(); l.acquire()
            self.sem.append(l); self.state.append(True)

        def main(i, body):
            self.local.id = i
            self.sem[i].acquire()
            sys.settrace(self._trace)
            try:
                body()
            finally:
                sys.settrace(None)
                self.local.id = None
                self.state[i] = False
                c = [j for j in range(self.n) if self._can(j)]
                if c:
                    t = self._pick(c, i) if self.forced is None else (self.forced.get(self.step + 1) if self.forced.get(self.step + 1) in c else c[0])
                    self.step += 1
                    self.switches.append([self.step, t])
                    self.cur = t
                    self.sem[t].release()
                elif any(callable(s) for s in self.state):
                    self.outcome = "deadlock"
                    self.done.release()
                else:
                    self.outcome = self.outcome or "done"
                    self.done.release()
        for i, b in enumerate(bodies):
            _thread.start_new_thread(main, (i, b))
        first = self.rng.randrange(self.n) if self.forced is None else (self.forced.get(0, 0) if self.forced.get(0, 0) < self.n else 0)
        self.switches.append([0, first])
        self.cur = first
        self.sem[first].release()
        self.done.acquire()
        return self.outcome


class SimLock:
    """Lock / RLock under the scheduler"""
    sched = None
    reentrant = True

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = SimLock.sched
        me = ("t", s.me()) if s else ("t", None)
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        if s:
            s.point(-2)
        if self.owner is not None:
            if not blocking:
                return False
            if s is None:
                raise RuntimeError("the controller would block for ever")
            s.block(lambda: self.owner is None)
        self.owner, self.count = me, 1
        return True

    def release(self):
        s = SimLock.sched
        me = ("t", s.me()) if s else ("t", None)
        if self.owner is None or (self.reentrant and self.owner != me):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if s:
                s.point(-3)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimPlainLock(SimLock):
    reentrant = False
