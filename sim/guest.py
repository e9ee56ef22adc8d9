"""C17: the library as a guest of its host process.  The host's own components (its pseudo-random stream, decimal arithmetic,
warning and logging set-up, signal handlers, environment, recursion limit, other modules …) are compared before and after every
operation, whether it succeeds, is refused, fails for lack of a resource or is cancelled anywhere; the stream is also drawn from
in the middle of operations; what was handed out earlier is read again at the end."""
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

import rt
import ref
import worlds
from model import Violation
from sched import Counter, pick_location
from worlds import World, OpGen, EXC, SITE_EXC, LINE_BUDGET

INHERIT = {"__builtins__", "__warningregistry__"}
SIGNALS = sorted(signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP})


# ------------------------------------------------------------------ what the host looks at
def _decimal():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(str(k) for k, v in c.traps.items() if v)),
            decimal.DefaultContext.prec)


def _logging():
    r = logging.getLogger()
    return (r.level, tuple(map(id, r.handlers)), tuple(map(id, r.filters)), r.disabled, logging.root.manager.disable,
            logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.lastResort), id(logging.getLogRecordFactory()),
            tuple(sorted(logging._levelToName.items())), id(logging.Logger.manager))


def _hooks():
    return (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook), id(threading.excepthook),
            sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile(), tuple(sys.get_asyncgen_hooks()),
            sys.get_coroutine_origin_tracking_depth(), getattr(sys, "tracebacklimit", None))


def _imports():
    return (tuple(sys.path), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode,
            tuple(map(str, sys.warnoptions)), tuple(sys.argv))


def _streams():
    return tuple(id(getattr(sys, n)) for n in ("stdin", "stdout", "stderr", "__stdin__", "__stdout__", "__stderr__"))


def _signals():
    w = signal.set_wakeup_fd(-1)
    if w != -1:
        signal.set_wakeup_fd(w)
    return (tuple((int(s), repr(signal.getsignal(s))) for s in SIGNALS), tuple(sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, [])))),
            signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF), signal.getitimer(signal.ITIMER_REAL)[1], w)


def _umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def _env():
    """The variables, except those in which a simulated host differs from the next one."""
    return tuple(sorted((k, v) for k, v in os.environ.items()))


def _collector():
    return (gc.isenabled(), gc.get_threshold(), gc.get_debug(), tuple(map(id, gc.callbacks)), tracemalloc.is_tracing())


def _limits():
    return tuple((n, resource.getrlimit(n)) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_STACK,
                                                      resource.RLIMIT_DATA, resource.RLIMIT_CPU)) + (os.getpriority(os.PRIO_PROCESS, 0),)


def _threads():
    return (threading.active_count(), threading.stack_size())


def _warn():
    return (tuple(map(repr, warnings.filters)), id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn))


PROBES = {
    "decimal context": _decimal, "logging": _logging, "hooks": _hooks, "import system": _imports, "standard streams": _streams,
    "signals and timers": _signals, "umask": _umask, "environment": _env, "garbage collector": _collector, "resource limits": _limits,
    "threads": _threads, "warning filters": _warn,
    "working directory": os.getcwd, "locale": lambda: locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit,
    "thread switch interval": sys.getswitchinterval, "integer text limit": sys.get_int_max_str_digits,
    "socket timeout": socket.getdefaulttimeout, "time zone": lambda: (time.tzname, time.timezone),
    "fault handler": faulthandler.is_enabled, "float text": lambda: (sys.float_repr_style, float.__getformat__("double")),
}

# modules whose names, classes and constants belong to others
_OTHERS = ("hashlib hmac os random secrets unicodedata json struct base64 binascii time datetime math string typing types io re copy "
           "functools itertools operator collections threading logging warnings signal locale decimal codecs builtins sys enum uuid "
           "pyaes pyaes.aes pyaes.blockfeeder pyaes.util ecdsa ecdsa.ellipticcurve ecdsa.keys ecdsa.curves ecdsa.ecdsa ecdsa.util ecdsa.numbertheory "
           "ecdsa.der scrypt scrypt.scrypt six").split()
# what the interpreter itself, or a first use, changes there
_OWN = {"sys": {"last_type", "last_value", "last_traceback", "last_exc", "modules", "path_importer_cache", "ps1", "ps2", "exitcode", "stdout", "stderr", "stdin",
                "tracebacklimit"},
        "builtins": {"_"}, "re": {"_cache", "_cache2"}, "hashlib": set(), "threading": {"_counter", "_active", "_limbo", "_dangling", "_shutdown_locks"},
        "logging": {"_handlers", "_handlerList"}, "unicodedata": set(), "math": set()}


def _shape(m, own):
    d = {}
    for k, v in list(vars(m).items()):
        if k in INHERIT or k in own:
            continue
        d[k] = id(v)
        if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] == m.__name__.split(".")[0] and m.__name__.split(".")[0] in ("ecdsa", "pyaes"):
            for x, y in vars(v).items():
                if x not in ("__dict__", "__weakref__", "__abstractmethods__", "_abc_impl", "__static_attributes__"):
                    d[k + "." + x] = id(y)
        elif isinstance(v, (set, dict, list)) and not k.startswith("__"):
            d[k + " (content)"] = len(v) if not isinstance(v, set) else len(list(set.__iter__(v)))
    return d


def other_modules():
    out = {}
    for n in _OTHERS:
        m = sys.modules.get(n)
        if m is not None:
            out[n] = (id(m), _shape(m, _OWN.get(n, ())))
    return out


def replaced():
    """Modules loaded now, apart from the library's."""
    return {n: id(m) for n, m in sys.modules.items() if not (n == "bip38" or n.startswith("bip38."))}


def look():
    return {k: f() for k, f in PROBES.items()}


def descriptors():
    return len(os.listdir("/proc/self/fd"))


def _usr1(*_):
    pass


class HostWarning(UserWarning):
    pass


def unusual(rng):
    """Sets the process up as some application has it, not as Python comes; returns what undoes it."""
    undo = []

    def put(get, do, *new):
        old = get()
        undo.append(lambda: do(old))
        do(*new)

    def filters(f):
        warnings.filters[:] = f
        warnings._filters_mutated()
    put(sys.getrecursionlimit, sys.setrecursionlimit, 1400 + rng.randrange(99))
    put(sys.getswitchinterval, sys.setswitchinterval, rng.choice([0.004, 0.005, 0.02]))
    put(sys.get_int_max_str_digits, sys.set_int_max_str_digits, rng.choice([0, 700, 5000, 4300]))
    put(socket.getdefaulttimeout, socket.setdefaulttimeout, rng.choice([None, 17.5]))
    put(lambda: list(warnings.filters), filters, [("error", None, HostWarning, None, 0)] + rng.choice(
        [[], [("default", None, DeprecationWarning, "__main__", 0), ("ignore", None, DeprecationWarning, None, 0)], [("error", None, Warning, None, 0)]]))
    put(gc.get_threshold, lambda t: gc.set_threshold(*t), (rng.choice([701, 5000]), 11, 12))
    if rng.random() < 0.3:
        put(gc.isenabled, lambda on: gc.enable() if on else gc.disable(), False)
    put(lambda: decimal.getcontext().copy(), decimal.setcontext, decimal.Context(prec=31, rounding=decimal.ROUND_DOWN))
    put(lambda: os.umask(0o77), os.umask, rng.choice([0o27, 0o22, 0]))
    put(lambda: signal.getsignal(signal.SIGUSR1), lambda h: signal.signal(signal.SIGUSR1, h), _usr1)
    put(lambda: signal.getsignal(signal.SIGINT), lambda h: signal.signal(signal.SIGINT, h), rng.choice([_usr1, signal.SIG_IGN, signal.default_int_handler]))
    put(lambda: signal.pthread_sigmask(signal.SIG_BLOCK, []), lambda m: signal.pthread_sigmask(signal.SIG_SETMASK, m),
        {signal.SIGUSR2} if rng.random() < 0.5 else set())
    root = logging.getLogger()
    put(lambda: root.level, root.setLevel, rng.choice([35, logging.WARNING, logging.ERROR]))
    h = logging.NullHandler()
    root.addHandler(h)
    undo.append(lambda: root.removeHandler(h))
    hook = sys.excepthook
    sys.excepthook = lambda *a: hook(*a)
    undo.append(lambda: setattr(sys, "excepthook", hook))
    os.environ["HOST_SETTING"] = "1"
    undo.append(lambda: os.environ.pop("HOST_SETTING", None))
    return lambda: [u() for u in reversed(undo)]


class Host:
    """The application around the library."""

    def __init__(self, W, seed):
        self.W = W
        self.mine = random.Random(seed)          # what its stream should be
        random.seed(seed)
        self.state = look()
        self.mods = other_modules()
        self.loaded = replaced()
        self.fds = descriptors()

    def draw(self, where):
        """The host takes numbers from the shared generator."""
        for _ in range(2):
            a, b = random.random(), self.mine.random()
            if a != b:
                raise Violation("the host's pseudo-random stream was changed %s: %r instead of %r" % (where, a, b))
        self.W.stat("host_draws")

    def check(self, where):
        self.draw(where)
        now = look()
        for k, v in now.items():
            if v != self.state[k]:
                raise Violation("%s of the host process changed %s: %r instead of %r" % (k, where, _diff(v, self.state[k]), _diff(self.state[k], v)))
        m = other_modules()
        for n, (i, d) in self.mods.items():
            if n not in m or m[n][0] != i:
                raise Violation("module %s was replaced %s" % (n, where))
            if m[n][1] != d:
                names = sorted(k for k in set(d) | set(m[n][1]) if d.get(k) != m[n][1].get(k))
                names = [k for k in names if not self.lazy(n, k, d, m[n][1])]
                if names:
                    raise Violation("%s of module %s changed %s" % (", ".join(names[:4]), n, where))
        now = replaced()
        for n, i in self.loaded.items():
            if now.get(n) != i:
                raise Violation("module %s was %s %s" % (n, "replaced" if n in now else "unloaded", where))
        self.loaded = now
        self.mods = m
        if descriptors() > self.fds + 3:
            raise Violation("file descriptors stay open %s: %d, %d at first" % (where, descriptors(), self.fds))
        self.W.stat("probes", len(PROBES) + len(self.mods))

    @staticmethod
    def lazy(mod, name, old, new):
        """A submodule imported later appears in its package; caches fill."""
        n = name.split(" ")[0].split(".")[0]
        return name not in old and ("%s.%s" % (mod, name) in sys.modules or n in ("__warningregistry__",)) or \
            n.startswith("_") and name.endswith("(content)") or "cache" in n.lower() or name not in old and name.startswith("__")


def _diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        d = [x for x in a if x not in b]
        return tuple(d[:4]) or a[:4]
    return a


# ------------------------------------------------------------------ plans
def plan_guest(seed, tier, idx):
    rng = random.Random("C17/%d" % seed)
    p = {"world": "guest", "prop": "C17", "seed": seed, "kdf": rng.choice(["fast", "edge"]),
         "provider": rng.choice(["ok", "ok", "unlisted", "refused"]), "host": rng.getrandbits(32)}
    g = OpGen(rng, p["kdf"])
    kinds = ["code", "mint", "mint", "encrypt", "encrypt", "decrypt", "decrypt", "confirm", "confirm", "wif", "addr", "other", "badnet", "wrong", "bad", "bad"]
    steps = []
    for _ in range(rng.choice([3, 5, 8])):
        r = rng.random()
        if r < 0.75 or not steps:
            op, a = g.op(kinds)
            if r < 0.12:
                if op == "code":
                    a.pop("salt", None)
                elif op == "mint":
                    a.pop("seed", None)
            elif r < 0.2:
                op, a = odd_call(rng, g)
        else:
            op, a = rng.choice(steps)["call"]
        f = None
        r = rng.random()
        if r < 0.3:
            f = {"how": "site", "exc": rng.getrandbits(16), "then": rng.choice(worlds.THEN)}
        elif r < 0.6:
            f = {"how": "line", "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "SystemExit", "TimeoutError", "Cancelled", "RecursionError"])}
        elif r < 0.75:
            f = {"how": "draw"}
        s = {"call": [op, a], "fault": f}
        if rng.random() < 0.15:
            s["provider"] = rng.choice(["ok", "unlisted", "refused"])
        steps.append(s)
    p["steps"] = steps
    return p


def odd_call(rng, g):
    """Requests at the edges: refused ones, oversized ones, numbering as text, damaged ones."""
    A = rng.choice(g.A)
    long = rng.choice([100, 600, 1200, 5000])
    text = min(long, 900)              # conversion between bases may be quadratic
    return rng.choice([
        ("code", dict(passphrase=A["p"], lot=5, sequence=1)), ("code", dict(passphrase=A["p"], lot=100000)),
        ("code", dict(passphrase=A["p"], salt="0011")), ("code", dict(passphrase=A["p"] * long, salt="00" * 8)),
        ("code", dict(passphrase=A["p"], salt="11" * 4, lot=999999, sequence=4095)),
        ("mint", dict(coin=A["coin"], code=A["code"], seed="00" * 23)), ("mint", dict(coin=A["coin"], code=A["code"], wif_type="x", seed="00" * 24)),
        ("mint", dict(coin=A["coin"], code="p" * text, seed="00" * 24)), ("decrypt", dict(coin=A["coin"], ewif=A["ewif"] * (1 + text // 60), passphrase=A["p"])),
        ("decrypt", dict(coin=A["coin"], ewif="6P" + "z" * text, passphrase=A["p"])), ("confirm", dict(coin=A["coin"], cfrm="1" * text, passphrase=A["p"])),
        ("encrypt", dict(coin=A["coin"], wif="1" * text + A["wif"], passphrase=A["p"])), ("w2p", dict(wif="5" * text)), ("wtype", dict(wif="")),
        ("encrypt", dict(coin="Bitcoin", wif=ref.wif(bytes(32), True, 0x80), passphrase=A["p"])),
        ("encrypt", dict(coin="Bitcoin", wif=ref.wif(b"\xff" * 32, True, 0x80), passphrase=A["p"])),
        ("p2w", dict(key=A["key"] + "00", wif_type="wif")), ("adec", dict(address="1" * text)), ("adec", dict(address=A["addr"] + "\u00e9")),
        ("aenc", dict(pub="02" + "ff" * 32, address_prefix=0)), ("decrypt", dict(coin=A["coin"], ewif="\u0661" * 58, passphrase=A["p"]))])


# ------------------------------------------------------------------ runs
def run_guest(p):
    W = World(p)
    rng = random.Random("guest/%d" % p["seed"])
    keep = random.getstate()
    worlds.arm_audit()
    rt.begin_run()
    c = W.ctx(p["provider"])
    usual = unusual(random.Random("host/%d" % p["host"]))
    try:
        return _run(p, W, rng, c)
    finally:
        worlds._AUDIT["on"] = None
        rt.events(None)
        c.on_site = None
        random.setstate(keep)
        usual()


def _run(p, W, rng, c):
    # a first image loads whatever is loaded on first use of anything
    rt.install(c)
    rt.install(None)
    host = Host(W, p["host"])
    img = rt.Image(W.opt)
    host.check("by importing the library")
    handed = []
    log = []
    for i, s in enumerate(p["steps"]):
        op, a = s["call"]
        f = s["fault"]
        hit = []
        k = None
        if s.get("provider"):
            c.provider = s["provider"]
            W.stat("fault.provider_change")
        what = "step %d %s(%s)" % (i, op, ascii({x: y if not isinstance(y, str) or len(y) < 120 else y[:120] + "..." for x, y in a.items() if y is not None}))
        rt.install(c)
        rt.install(None)            # the host's own variables are in place
        host.state["environment"] = _env()
        host.check("before " + what)
        if f is not None:           # a rehearsal in another image, without the fault, shows where it can strike
            sites = []
            x, cc = rt.Image(W.opt), W.ctx(c.provider)
            cc.on_site = lambda n, fa: sites.append(n) if fa else None
            worlds._AUDIT["on"] = log
            rt.events("line")
            with Counter(record=True, budget=LINE_BUDGET) as tr:
                W.call(cc, x, op, a)
            rt.events(None)
            worlds._AUDIT["on"] = None
            if log:
                raise Violation("%s reached outside the process: %r" % (what, log[:3]))
            host.check("by " + what)

            def pick():
                if f["how"] == "site":
                    if not sites:
                        return None
                    name = rng.choice(sorted(set(sites)))
                    js = [j for j, z in enumerate(sites) if z == name]
                    return [rng.choice(js), SITE_EXC.get(name, ["MemoryError"])[f["exc"] % len(SITE_EXC.get(name, [0]))]]
                return [pick_location(rng, tr.trace), f.get("exc")] if tr.trace else None
            k = W.res("f%d" % s.get("n", i), pick)
        keep = rt.CALL_BUDGET
        mid = []
        if k is not None and f["how"] == "site":
            c.on_site = worlds.striker(W, k[0], k[1], hit, f.get("then"))
        worlds._AUDIT["on"] = log
        try:
            if k is not None and f["how"] in ("line", "draw"):
                def act():
                    hit.append(f["how"])
                    if f["how"] == "draw":
                        try:
                            host.draw("in the middle of " + what)
                        except Violation as e:
                            mid.append(e)
                    else:
                        raise EXC[k[1]]()
                rt.events("line")
                with Counter(at=k[0], action=act, budget=LINE_BUDGET):
                    o = W.call(c, img, op, a)
            else:
                o = W.call(c, img, op, a)
        finally:
            worlds._AUDIT["on"] = None
            rt.events(None)
            c.on_site = None
            rt.CALL_BUDGET = keep
        if mid:
            raise mid[0]
        W.stat("ops")
        if hit:
            W.stat("fault.host_draw" if hit[0] == "draw" else "fault.%s_%s" % (hit[0], k[1]))
        W.record(i, op, k, hit, o.key())
        W.states.add((op, o.cls, hit[0] if hit else None, c.provider))
        how = "by " + what if not hit or hit[0] == "draw" else "by %s, which had %s at %s" % (what, hit[0], k)
        if log:
            raise Violation("%s reached outside the process: %r" % (what, log[:3]))
        host.check(how)
        if not o.ok and o.exc is not None:
            handed.append((what, o.exc, _read(o.exc)))
    for what, e, was in handed:
        now = _read(e)
        if now != was:
            raise Violation("the error raised by %s changed later: %r, then %r" % (what, was, now))
    W.stat("errors_kept", len(handed))
    farewell(W, c)
    return W


def farewell(W, c):
    """The host ends: what the library left to be done then must neither end it in another way, nor change or tell anything."""
    if not rt.EXITS:
        return
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(w, 2)
            rt.install(c)
            before = {n: f() for n, f in PROBES.items()}
            for f, a, k in reversed(rt.EXITS):
                try:
                    f(*a, **k)
                except BaseException:
                    pass
            os.write(w, ascii([n for n, f in PROBES.items() if f() != before[n]]).encode())
        finally:
            os._exit(99)
    os.close(w)
    said = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        said += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    W.stat("exit_handlers", len(rt.EXITS))
    if os.waitstatus_to_exitcode(st) != 99 or said != b"[]":
        raise Violation("when the host process ends, a handler that the library registered changes how: status %d instead of 99, %r" % (
            os.waitstatus_to_exitcode(st), said[:200].decode("utf-8", "replace")))


def _read(e):
    try:
        return (type(e).__name__, str(e), repr(e), repr(e.args))
    except Exception as x:
        return (type(e).__name__, "unreadable", type(x).__name__, "")
