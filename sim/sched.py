"""Deterministic scheduling of real threads: exactly one simulated thread runs at a time, and
which one, and for how many events (lines or bytecode instructions of library code, and seam
crossings), is decided here.  A schedule is an explicit list of [thread, events]."""
import rt

INF = 10 ** 12


class Deadlock(rt.SimAbort):
    pass


class Budget(rt.SimAbort):
    pass


class Sched:
    """tasks: callables run one per simulated thread.  `plan`: list of [tid, n]; when it is used up
    the remaining threads run one after the other.  `dynamic(sched) -> (tid, n)` replaces the plan."""

    def __init__(self, tasks, plan=None, dynamic=None, budget=20_000_000, points=True):
        self.tasks = tasks
        self.plan = [list(x) for x in (plan or [])]
        self.pi = 0
        self.dynamic = dynamic
        self.budget = budget
        self.points = points
        self.n = len(tasks)
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.locks = [rt.REAL.lock() for _ in tasks]
        for l in self.locks:
            l.acquire()
        self.main = rt.REAL.lock()
        self.main.acquire()
        self.cur = None
        self.left = 0
        self.used = 0
        self.steps = 0
        self.log = []              # effective schedule
        self.sealed = False
        self.switches = []         # (from, to, code, line): which interleaving this was
        self.ids = {}
        self.abort = None
        self.results = [None] * self.n
        self.active = False
        self.where = ("start", 0)

    # ---- choosing
    def _next(self):
        run = [t for t in range(self.n) if not self.done[t] and
               (self.blocked[t] is None or not self.blocked[t].locked())]
        if not run:
            return None
        if self.dynamic is not None:
            return self.dynamic(self, run)
        while self.pi < len(self.plan):
            t, k = self.plan[self.pi]
            self.pi += 1
            if t in run and k > 0:
                return t, k
        # plan used up: continue whoever runs, else the lowest
        if self.cur in run:
            return self.cur, INF
        return run[0], INF

    def _close(self, own):
        """Log the segment that ends.  `own`: the thread ended it itself (by finishing or waiting), so
        that when replayed its quantum must not run out at its last event."""
        n = self.used + (1 if own else 0)
        if self.cur is not None and n:
            if self.log and self.log[-1][0] == self.cur and not self.sealed:
                self.log[-1][1] += n
            else:
                self.log.append([self.cur, n])
            self.sealed = own
        self.used = 0

    def _handoff(self, me, own=False):
        """Give the baton on; returns when `me` (if not None) holds it again."""
        self._close(own)
        nx = self._next()
        if nx is None:
            if all(self.done):
                self.active = False
                self.cur = None
                self.main.release()
                return
            # everyone left is blocked
            self.abort = self.abort or Deadlock("deadlock: threads %s wait for locks that are never released"
                                                % [t for t in range(self.n) if not self.done[t]])
            for t in range(self.n):
                self.blocked[t] = None
            nx = (next(t for t in range(self.n) if not self.done[t]), INF)
        t, k = nx
        self.left = k
        if t == me:
            return
        self.switches.append((me, t, self.where[0], self.where[1]))
        self.cur = t
        self.locks[t].release()
        if me is not None and not self.done[me]:
            self.locks[me].acquire()

    # ---- events
    def event(self, code=None, line=0):
        if not self.active:
            return
        me = self.ids.get(rt.REAL.ident())
        if me is None or me != self.cur:
            return
        if self.abort is not None:
            raise self.abort
        self.steps += 1
        self.used += 1
        if self.steps > self.budget:
            self.abort = Budget("no progress: %d events without all threads finishing" % self.budget)
            raise self.abort
        self.left -= 1
        if self.left <= 0:
            if rt.in_import():
                self.left = 1
                return
            self.where = (code if isinstance(code, str) else code.co_name if code is not None else "seam", line)
            self._handoff(me)
            if self.abort is not None:
                raise self.abort

    def point(self, name):
        if self.points:
            self.event("at " + name, 0)

    def block(self, lock, timeout):
        me = self.ids.get(rt.REAL.ident())
        if me is None or not self.active:
            raise Deadlock("deadlock: a call waits for a lock that only it holds")
        if self.abort is not None:
            raise self.abort
        if timeout is not None and timeout >= 0:
            rt.CTX.tick(timeout)
            if not any(not self.done[t] and t != me and self.blocked[t] is None for t in range(self.n)):
                return False
        self.blocked[me] = lock
        self.where = ("lock", 0)
        self.left = 0
        self._handoff(me, True)
        self.blocked[me] = None
        if self.abort is not None:
            raise self.abort
        return True

    # ---- running
    def _thread(self, t):
        self.ids[rt.REAL.ident()] = t
        self.locks[t].acquire()
        try:
            self.results[t] = ("done", self.tasks[t]())
        except rt.SimAbort as e:
            self.results[t] = ("abort", str(e))
        except BaseException as e:      # harness error
            self.results[t] = ("harness", repr(e))
        finally:
            self.done[t] = True
            self.blocked[t] = None
            self.where = ("end", 0)
            self._handoff(t, True)

    def run(self, kind="line"):
        rt.CTX.sched = self
        rt.events(kind)
        rt.HOOK = self.event
        try:
            for t in range(self.n):
                rt.REAL.start(self._thread, (t,))
            while len(self.ids) < self.n:       # start-up only; nothing simulated runs yet
                rt.REAL.sleep(0.0002)
            self.active = True
            self.where = ("begin", 0)
            self._handoff(None)
            self.main.acquire()
        finally:
            rt.HOOK = None
            rt.CTX.sched = None
            rt.events(None)
        return self.results


class Counter:
    """Solo run under events: counts them, records where they happen, may act at the k-th."""

    def __init__(self, at=None, action=None, record=False, budget=None):
        self.n = 0
        self.at = at
        self.action = action
        self.trace = [] if record else None
        self.fired = None
        self.budget = budget

    def point(self, name):
        self(None, "at " + name)

    def __call__(self, code, line):
        self.n += 1
        w = (code.co_filename, code.co_name, line) if code is not None else ("", line, 0)
        if self.trace is not None:
            self.trace.append(w)
        if self.n == self.at:
            if rt.in_import():
                self.at += 1
                return
            self.fired = w[1:]
            self.action()
        if self.budget is not None and self.n > self.budget:
            raise Budget("no progress: more than %d events in one call" % self.budget)

    def __enter__(self):
        rt.HOOK = self
        return self

    def __exit__(self, *a):
        rt.HOOK = None


def pick_location(rng, trace, bias=False):
    """An event index, choosing a distinct code location first so that loops do not dominate.  Positions
    just after the library wrote to an attribute, a global or a container come first; with `bias`,
    dependency calls and the outermost module are preferred to the innermost helpers."""
    if not trace:
        return 1
    r = rng.random()
    hot = rt.touchy(trace, r < 0.25) if r < 0.4 else None
    by = {}
    for i in hot or range(1, len(trace) + 1):
        by.setdefault(trace[i - 1], []).append(i)
    locs = sorted(by)
    if bias and not hot:
        r = rng.random()
        top = trace[0][0] or trace[-1][0]
        some = [w for w in locs if (w[0] == "" if r < 0.3 else w[0] == top if r < 0.7 else True)]
        locs = some or locs
    return rng.choice(by[rng.choice(locs)])
