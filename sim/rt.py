"""Simulator runtime: process images of the library, and the seams.

Everything the library can observe that is not a pure function of its arguments is taken
over here, at the boundary with its dependencies (nothing in /repo is changed):
operating-system entropy, key derivation, hash provider, cipher and curve calls (as fault
sites), clocks, locks, the process id.  Seams act only while a simulation context is
installed in CTX; otherwise they fall through to the real thing.
"""
import dis
import atexit
import builtins
import ctypes
import datetime as _dtmod
import hashlib
import io
import importlib.abc
import importlib.machinery
import os
import random
import struct
import sys
import threading
import time
import types
import _thread

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")

# real versions, captured before anything is patched
REAL = types.SimpleNamespace(
    urandom=os.urandom, getrandom=getattr(os, "getrandom", None), sha256=hashlib.sha256, hnew=hashlib.new,
    hscrypt=hashlib.scrypt, pbkdf2=hashlib.pbkdf2_hmac, algs=set(hashlib.algorithms_available),
    time=time.time, monotonic=time.monotonic, perf=time.perf_counter, sleep=time.sleep,
    lock=_thread.allocate_lock, rlock=threading.RLock, getpid=os.getpid, start=_thread.start_new_thread,
    ident=_thread.get_ident, open=builtins.open, os_open=os.open, os_read=os.read, os_close=os.close, datetime=_dtmod.datetime)

import pyaes  # noqa: E402
import scrypt  # noqa: E402
import six  # noqa: E402,F401
import ecdsa  # noqa: E402
import ecdsa.ellipticcurve  # noqa: E402
import ecdsa.keys  # noqa: E402
import unicodedata  # noqa: E402,F401

import ref as refmod  # noqa: E402

CTX = None          # the current simulation context (class Ctx), or None


class SimAbort(BaseException):
    """Raised into simulated threads to end a run (deadlock, step budget)."""


# ------------------------------------------------------------------ key derivation
def _b(x):
    return x.encode("utf-8") if isinstance(x, str) else bytes(x)


_real_memo = {}


def kdf(mode, password, salt, n, r, p, buflen):
    """mode 'fast': one PBKDF2-HMAC-SHA256 round over every parameter (same equivalences between
    passphrases as scrypt, whose first and last steps are exactly that function);
    'edge': the same with leading/trailing zero or 0xff bytes made frequent in each 16-byte half;
    'real': scrypt itself."""
    password, salt = _b(password), _b(salt)
    if mode == "real":
        k = (password, salt, n, r, p, buflen)
        v = _real_memo.get(k)
        if v is None:
            if len(_real_memo) > 4000:
                _real_memo.clear()
            v = _real_memo[k] = refmod._real_scrypt(password, salt=salt, n=n, r=r, p=p,
                                                     maxmem=128 * 1024 * 1024, dklen=buflen)
        return v
    s = salt + struct.pack(">QLL", n, r, p)
    out = REAL.pbkdf2("sha256", password, s, 1, buflen)
    if mode == "edge":
        sel = REAL.sha256(out + b"edge").digest()
        b = bytearray(out)
        for j in range(0, buflen, 16):
            c = sel[(j // 16) % 32] & 7
            e = min(j + 16, buflen)
            if c == 0:
                b[j] = 0
            elif c == 1:
                b[j:min(j + 2, e)] = b"\0" * min(2, e - j)
            elif c == 2:
                b[e - 1] = 0
            elif c == 3:
                b[j] = 0xFF if j else 0x7F
            elif c == 4:
                b[j] = 0
                b[e - 1] = 0
        out = bytes(b)
    return out


def scrypt_hash(password, salt, N=1 << 14, r=8, p=1, buflen=64):
    c = CTX
    if c is None:
        return _orig_scrypt_hash(password, salt, N, r, p, buflen)
    c.site("kdf")
    if c.kdf_mode == "real" and c.kdf_genuine:
        v = _orig_scrypt_hash(password, salt, N, r, p, buflen)
    else:
        v = kdf(c.kdf_mode, password, salt, N, r, p, buflen)
    c.tick(0.5 if N >= 16384 else 0.01)
    c.site("kdf.done", False)
    return v


_orig_scrypt_hash = scrypt.hash
scrypt.hash = scrypt_hash
for _m in list(sys.modules.values()):
    if getattr(_m, "__name__", "").startswith("scrypt") and getattr(_m, "hash", None) is _orig_scrypt_hash:
        _m.hash = scrypt_hash


def hashlib_scrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
    c = CTX
    if c is None:
        return REAL.hscrypt(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)
    c.site("kdf")
    v = kdf(c.kdf_mode, password, salt, n, r, p, dklen)
    c.tick(0.5 if n >= 16384 else 0.01)
    c.site("kdf.done", False)
    return v


hashlib.scrypt = hashlib_scrypt


# ------------------------------------------------------------------ hash provider
def sha256(*a, **k):
    if CTX is not None:
        CTX.site("sha256")
    return REAL.sha256(*a, **k)


hashlib.sha256 = sha256


class _R160:
    """A ripemd160 hash object that does not depend on the host's provider."""
    name, digest_size, block_size = "ripemd160", 20, 64

    def __init__(self, data=b""):
        self._d = bytes(data)

    def update(self, data):
        self._d += bytes(data)

    def copy(self):
        return _R160(self._d)

    def digest(self):
        return refmod.ripemd160(self._d)

    def hexdigest(self):
        return self.digest().hex()


def hash_new(name, data=b"", **kw):
    c = CTX
    if c is None:
        return REAL.hnew(name, data, **kw)
    low = name.lower() if isinstance(name, str) else name
    if low in ("ripemd160", "rmd160"):
        c.site("ripemd")
        if c.provider == "ok":
            return _R160(data)
        c.stat("provider." + c.provider)
        if c.provider == "unlisted":
            raise ValueError("unsupported hash type " + name)
        raise ValueError("[digital envelope routines] unsupported")
    if low == "sha256":
        c.site("sha256")
    return REAL.hnew(name, data, **kw)


hashlib.new = hash_new


class _Algs(set):
    """hashlib.algorithms_available as the simulated host presents it at this instant."""

    def __contains__(self, x):
        if CTX is not None and isinstance(x, str) and x.lower() in ("ripemd160", "rmd160"):
            CTX.site("algs", False)
            return CTX.provider != "unlisted"
        return set.__contains__(self, x)

    def __iter__(self):
        if CTX is not None and CTX.provider == "unlisted":
            return (v for v in set.__iter__(self) if v.lower() not in ("ripemd160", "rmd160"))
        return set.__iter__(self)


hashlib.algorithms_available = _Algs(REAL.algs | {"ripemd160"})


# ------------------------------------------------------------------ entropy
def urandom(n):
    c = CTX
    if c is None:
        return REAL.urandom(n)
    c.site("urandom")
    return c.entropy(n)


def getrandom(n, flags=0):
    c = CTX
    if c is None:
        return REAL.getrandom(n, flags)
    c.site("urandom")
    if c.short_reads and n > 1:
        n = max(1, n // 2)
        c.stat("short_random_read")
    return c.entropy(n)


class _RandomFile(io.RawIOBase):
    def readable(self):
        return True

    def readinto(self, b):
        c = CTX
        if c is None:
            b[:] = REAL.urandom(len(b))
        else:
            c.site("urandom")
            n = len(b)
            if c.short_reads and n > 1:
                n = max(1, n // 2)
                c.stat("short_random_read")
            b[:n] = c.entropy(n)
            return n
        return len(b)


def _is_random(path):
    return CTX is not None and isinstance(path, (str, bytes, os.PathLike)) and os.fsdecode(path) in ("/dev/urandom", "/dev/random")


def sim_open(file, mode="r", buffering=-1, *a, **k):
    if _is_random(file):
        return _RandomFile() if buffering == 0 else io.BufferedReader(_RandomFile(), 64)
    return REAL.open(file, mode, buffering, *a, **k)


def sim_os_open(path, flags, *a, **k):
    if not _is_random(path):
        return REAL.os_open(path, flags, *a, **k)
    fd = REAL.os_open(os.devnull, os.O_RDONLY)
    _random_fds.add(fd)
    return fd


def sim_os_read(fd, n, *a):
    return getrandom(n) if fd in _random_fds else REAL.os_read(fd, n, *a)


def sim_os_close(fd):
    _random_fds.discard(fd)
    return REAL.os_close(fd)


def _rand_bytes(orig):
    def f(n):
        return orig(n) if CTX is None else urandom(n)
    return f


_random_fds = set()
builtins.open = io.open = sim_open
os.open, os.read, os.close = sim_os_open, sim_os_read, sim_os_close
try:
    import _ssl
    _ssl.RAND_bytes = _rand_bytes(_ssl.RAND_bytes)
except ImportError:
    pass
os.urandom = urandom
random._urandom = urandom
if REAL.getrandom is not None:
    os.getrandom = getrandom


# ------------------------------------------------------------------ cipher and curve: fault sites
def _wrap(owner, name, site, cm=False):
    orig = owner.__dict__[name]
    f = orig.__func__ if cm else orig

    def w(*a, **k):
        if CTX is not None:
            CTX.site(site)
        return f(*a, **k)
    w.__name__ = name
    w.__wrapped__ = f
    setattr(owner, name, classmethod(w) if cm else w)


_wrap(pyaes.AESModeOfOperationECB, "encrypt", "aes")
_wrap(pyaes.AESModeOfOperationECB, "decrypt", "aes")
_wrap(ecdsa.keys.SigningKey, "from_string", "ec", True)
_wrap(ecdsa.keys.VerifyingKey, "from_string", "ec", True)
_wrap(ecdsa.ellipticcurve.PointJacobi, "__mul__", "ec")


# ------------------------------------------------------------------ clocks, pid
def _clk(name, real, scale, wall):
    def f():
        c = CTX
        if c is None:
            return real()
        c.stat("clock_reads")
        t = c.wall() if wall else c.mono()
        return int(t * 1e9) if scale else t
    f.__name__ = name
    return f


for _n, _w in (("time", True), ("monotonic", False), ("perf_counter", False), ("process_time", False),
               ("thread_time", False)):
    setattr(time, _n, _clk(_n, getattr(time, _n), 0, _w))
    setattr(time, _n + "_ns", _clk(_n + "_ns", getattr(time, _n + "_ns"), 1, _w))


def sleep(s):
    c = CTX
    if c is None:
        return REAL.sleep(s)
    c.tick(float(s))
    c.site("sleep", False)


time.sleep = sleep


class _DT(REAL.datetime):
    @classmethod
    def now(cls, tz=None):
        return REAL.datetime.now(tz) if CTX is None else REAL.datetime.fromtimestamp(CTX.wall(), tz)

    @classmethod
    def utcnow(cls):
        return REAL.datetime.utcnow() if CTX is None else \
            REAL.datetime.fromtimestamp(CTX.wall(), _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_dtmod.datetime = _DT


def getpid():
    return REAL.getpid() if CTX is None else CTX.pid


os.getpid = getpid


class _Date(_dtmod.date):
    @classmethod
    def today(cls):
        if CTX is None:
            return cls.fromtimestamp(REAL.time())
        d = REAL.datetime.fromtimestamp(CTX.wall())
        return cls(d.year, d.month, d.day)


_dtmod.date = _Date


def _with_now(name, takes):
    orig = getattr(time, name)

    def f(*a):
        if CTX is not None and len(a) < takes:
            a += (CTX.wall(),) if name in ("localtime", "gmtime", "ctime") else (time.localtime(CTX.wall()),)
        return orig(*a)
    f.__name__ = name
    return f


for _n, _k in (("localtime", 1), ("gmtime", 1), ("ctime", 1), ("asctime", 1), ("strftime", 2)):
    setattr(time, _n, _with_now(_n, _k))


def _clock_gettime(orig, scale):
    def f(which):
        if CTX is None:
            return orig(which)
        t = CTX.wall() if which == time.CLOCK_REALTIME else CTX.mono()
        return int(t * 1e9) if scale else t
    return f


time.clock_gettime = _clock_gettime(time.clock_gettime, 0)
time.clock_gettime_ns = _clock_gettime(time.clock_gettime_ns, 1)


def _sim_times(orig):
    def times():
        if CTX is None:
            return orig()
        t = CTX.mono()
        return os.times_result((t, t / 8, 0.0, 0.0, t))
    return times


def _sim_rusage(orig):
    def getrusage(who):
        r = orig(who)
        if CTX is None:
            return r
        t = CTX.mono()
        return resource.struct_rusage((t, t / 8, 20000, 0, 0, 0, 900, 0, 0, 0, 0, 0, 0, 0, 1, 0))
    return getrusage


import resource  # noqa: E402
os.times = _sim_times(os.times)
resource.getrusage = _sim_rusage(resource.getrusage)


# ------------------------------------------------------------------ who and where the host is
def _per_host(owner, name, value):
    orig = getattr(owner, name)

    def f(*a, **k):
        return orig(*a, **k) if CTX is None else value(CTX.hostname)
    f.__name__ = name
    setattr(owner, name, f)


import platform  # noqa: E402
import socket  # noqa: E402
import uuid  # noqa: E402
_per_host(os, "uname", lambda h: os.uname_result(("Linux", h, "6.%d" % len(h), "#1", "x86_64")))
_per_host(os, "getppid", lambda h: 2 + len(h) % 3)
_per_host(os, "cpu_count", lambda h: 1 + sum(h.encode()) % 16)
_per_host(os, "getcwd", lambda h: "/srv/" + h)
_per_host(os, "getlogin", lambda h: "u%d" % sum(h.encode()))
_per_host(os, "getloadavg", lambda h: (len(h) / 7, 0.5, 0.25))
_per_host(platform, "node", lambda h: h)
_per_host(socket, "gethostname", lambda h: h)
_per_host(socket, "getfqdn", lambda h: h + ".example")
_per_host(uuid, "getnode", lambda h: int.from_bytes(h.encode()[-6:].rjust(6, b"m"), "big"))
LOCALES = ["C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE", "ja_JP.eucJP", "C.UTF-8"]
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "HST10", "LINT-14"]
_libc = ctypes.CDLL(None)
_env_of = None


def host_environment(h):
    """The variables a process finds on that host."""
    global _env_of
    if _env_of != h:
        _env_of = h
        n = sum(h.encode())
        for k, v in {"HOSTNAME": h, "USER": "u%d" % n, "LOGNAME": "u%d" % n, "LANG": LOCALES[n % len(LOCALES)], "TZ": ZONES[n % len(ZONES)],
                     "TERM": "vt%d" % (n % 9), "PWD": "/srv/" + h}.items():
            os.environ._data[k.encode()] = v.encode()
        _libc.setenv(b"TZ", ZONES[n % len(ZONES)].encode(), 1)
        time.tzset()


LIBRARY = os.path.join(REPO, "bip38") + os.sep


class _Variables(dict):
    """Whatever variable the library asks for, some hosts have it set."""

    def __missing__(self, key):
        if CTX is not None:
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename.startswith("<frozen"):
                f = f.f_back
            if f is not None and f.f_code.co_filename.startswith(LIBRARY):
                CTX.stat("environment.asked")
                d = REAL.sha256(b"%d|%s|%s" % (CTX.seed, CTX.hostname.encode(), key)).digest()
                v = [None, None, b"1", b"true", b"0", b"debug"][d[0] % 6]
                if v is not None:
                    return v
        raise KeyError(key)


os.environ._data = _Variables(os.environ._data)


# ------------------------------------------------------------------ what the library leaves to be done when the host ends
EXITS = []
REAL.atexit_register = atexit.register


def _register(f, *a, **k):
    fr = sys._getframe(1)
    if fr is not None and fr.f_code.co_filename.startswith(LIBRARY):
        EXITS.append((f, a, k))
        return f
    return REAL.atexit_register(f, *a, **k)


atexit.register = _register


# ------------------------------------------------------------------ locks
class SimLock:
    """A lock whose waiting is decided by the scheduler; without one, waiting is a self-deadlock."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        c = CTX
        me = REAL.ident()
        if c is not None:
            c.site("lock", False)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if c is None or not c.block(self, timeout):
                return False
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.n = 0
            self.owner = None
        if CTX is not None:
            CTX.site("unlock", False)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition wants of an RLock
    def _is_owned(self):
        return self.owner == REAL.ident()

    def _release_save(self):
        st = (self.owner, self.n)
        self.owner, self.n = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.n = REAL.ident(), st[1]

    def _at_fork_reinit(self):
        self.owner, self.n = None, 0


class SimRLock(SimLock):
    reentrant = True


_SIMLOCKS = False       # on while library code is loading or running


def _mk_lock():
    return SimLock() if (_SIMLOCKS or CTX is not None) else REAL.lock()


def _mk_rlock(*a):
    return SimRLock() if (_SIMLOCKS or CTX is not None) else REAL.rlock()


# ------------------------------------------------------------------ threads the library itself starts
# They run to their end where they are started (one of the legal schedules), preempted with their starter.
import concurrent.futures.thread as _cft  # noqa: E402


def _thread_start(self):
    if CTX is None:
        return REAL.thread_start(self)
    if self._started.is_set():
        raise RuntimeError("threads can only be started once")
    CTX.stat("library_threads")
    self._started.set()
    try:
        if not isinstance(self, threading.Timer):     # a timer comes due after the run
            self.run()
    except Exception:
        import traceback
        traceback.print_exc()
    finally:
        self._is_stopped, self._tstate_lock = True, None


def _submit(self, fn, /, *a, **k):
    if CTX is None:
        return REAL.submit(self, fn, *a, **k)
    CTX.stat("library_threads")
    fut = _cft._base.Future()
    fut.set_running_or_notify_cancel()
    try:
        r = fn(*a, **k)
    except Exception as e:
        fut.set_exception(e)
    else:
        fut.set_result(r)
    return fut


REAL.thread_start, REAL.submit = threading.Thread.start, _cft.ThreadPoolExecutor.submit
threading.Thread.start, _cft.ThreadPoolExecutor.submit = _thread_start, _submit


threading.Lock = threading._allocate_lock = _mk_lock      # the latter is what conditions, semaphores and events wait on
threading.RLock = _mk_rlock


# ------------------------------------------------------------------ loading /repo as process images
_code_cache = {}
CODES = []          # every code object of the library, for instruction/line events


STRONG, WEAK = set(), set()     # (file, function, line or offset) of code that writes where others may look
_MUTATORS = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "remove", "discard", "write",
             "seek", "truncate", "sort", "reverse", "appendleft", "popleft", "rotate", "move_to_end", "acquire", "release", "put",
             "get_nowait", "throw", "send", "set", "reset"}


def _collect(co):
    CODES.append(co)
    if co.co_name != "<module>":
        line = co.co_firstlineno
        for i in dis.get_instructions(co):
            if i.starts_line is not None:
                line = i.starts_line
            o, v = i.opname, i.argval
            if o in ("STORE_GLOBAL", "DELETE_GLOBAL") or o in ("STORE_ATTR", "DELETE_ATTR") and co.co_name != "__init__" or \
                    o == "LOAD_GLOBAL" and v in ("setattr", "delattr", "globals", "vars") or o == "LOAD_ATTR" and v == "__dict__":
                to = STRONG
            elif o in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE") or \
                    o in ("LOAD_ATTR", "LOAD_METHOD") and v in _MUTATORS:
                to = WEAK
            else:
                continue
            to.add((co.co_filename, co.co_name, line))
            to.add((co.co_filename, co.co_name, -1 - i.offset))
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            _collect(k)


OPT = 0        # 1 or 2 on hosts that run python -O or -OO


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        key = self.path, OPT
        co = _code_cache.get(key)
        if co is None:
            with REAL.open(self.path, "rb") as f:
                src = f.read()
            co = compile(src, self.path, "exec", dont_inherit=True, optimize=OPT)
            _code_cache[key] = co
            _collect(co)
        exec(co, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "bip38" and not fullname.startswith("bip38."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            sp = importlib.machinery.ModuleSpec(fullname, _Loader(init), origin=init, is_package=True)
            sp.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            sp = importlib.machinery.ModuleSpec(fullname, _Loader(base + ".py"), origin=base + ".py")
        else:
            return None
        sp.has_location = True
        return sp


sys.meta_path.insert(0, _Finder())

_active = None


def _ours():
    return [n for n in sys.modules if n == "bip38" or n.startswith("bip38.")]


class Image:
    """One process image of the library: a fresh copy of every module, as after an exec."""
    count = 0

    def __init__(self, opt=0):
        global _active, _SIMLOCKS, OPT
        Image.count += 1
        _park()
        OPT = self.opt = opt
        self.mods = {}
        old, _SIMLOCKS = _SIMLOCKS, True
        try:
            import importlib as il
            b = il.import_module("bip38")
            self.BIP38 = b.BIP38
            self.coins = il.import_module("bip38.cryptocurrencies")
            self.exc = il.import_module("bip38.exceptions")
            self.wif = il.import_module("bip38.wif")
            self.addr = il.import_module("bip38.p2pkh_address")
            self.crypto = il.import_module("bip38.crypto")
            self.curve = il.import_module("bip38.secp256k1")
        finally:
            _SIMLOCKS = old
        _active = self
        self.inst = {}

    def activate(self):
        global _active, OPT
        if _active is not self:
            _park()
            OPT = self.opt
            for n, m in self.mods.items():
                sys.modules[n] = m
            _active = self

    def instance(self, coin, network=None, tag=""):
        k = (coin, network, tag)
        i = self.inst.get(k)
        if i is None:
            cls = getattr(self.coins, coin)
            i = self.BIP38(cryptocurrency=cls) if network is None else self.BIP38(cryptocurrency=cls, network=network)
            self.inst[k] = i
        return i


def _park():
    global _active
    names = _ours()
    if _active is not None:
        _active.mods = {n: sys.modules[n] for n in names}
    for n in names:
        del sys.modules[n]
    _active = None


# ------------------------------------------------------------------ context
class Ctx:
    """What one simulated run (or one host of it) presents to the library."""

    def __init__(self, seed=0, kdf_mode="fast", provider="ok"):
        self.kdf_mode = kdf_mode
        self.kdf_genuine = False
        self.provider = provider
        self.seed = seed
        self.clone = 0
        self.draws = 0
        self.drawn = 0
        self.drawlog = None
        self.entropy_salt = b""
        self.entropy_fn = None
        self.short_reads = False
        self.now = 1.7e9
        self.start = self.now
        self.skew = 0.0
        self.pid = 4242
        self.stats = {}
        self.sched = None
        self.on_site = None        # f(name, faultable): may raise
        self.flip = None           # provider flips
        self.sites = 0

    @property
    def hostname(self):
        return "host%d" % (self.pid % 50)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def site(self, name, faultable=True):
        self.sites += 1
        s = self.sched
        if s is not None:
            s.point(name)
        elif HOOK is not None and hasattr(HOOK, "point"):
            HOOK.point(name)
        f = self.on_site
        if f is not None:
            f(name, faultable)

    def entropy(self, n):
        self.draws += 1
        self.drawn += n
        if self.entropy_fn is not None:
            out = self.entropy_fn(n)
        else:
            out = hashlib.shake_256(b"%d|%d|%d|" % (self.seed, self.clone, self.draws) + self.entropy_salt).digest(n)
        if self.drawlog is not None:
            self.drawlog.append(out)
        return out

    def tick(self, dt):
        self.now += dt

    def wall(self):
        return self.now + self.skew

    def mono(self):
        return self.now - self.start + 1000.0

    def block(self, lock, timeout):
        if self.sched is not None:
            return self.sched.block(lock, timeout)
        if timeout is not None and timeout >= 0:
            self.tick(timeout)
            return False
        raise SimAbort("deadlock: a call waits for a lock that only it holds")


def install(ctx):
    global CTX
    if ctx is not None:
        host_environment(ctx.hostname)
    CTX = ctx


def begin_run():
    random.seed(1234567)
    del EXITS[:]


# ------------------------------------------------------------------ line/instruction events
TOOL = 3
CALL_BUDGET = None     # lines one call may execute before it counts as hung
_mon = sys.monitoring
_mon_on = None
HOOK = None


def _on_line(code, line):
    h = HOOK
    if h is not None:
        h(code, line)


def _on_instr(code, offset):
    h = HOOK
    if h is not None:
        h(code, -1 - offset)


def touchy(trace, strong):
    """Positions in a recorded trace shortly after a write that others may see."""
    at = STRONG if strong else WEAK
    out = set()
    for i, w in enumerate(trace):
        if w in at:
            out.update(range(i + 2, min(i + (5 if w[2] > 0 else 8), len(trace)) + 1))
    return sorted(out)


def events(kind):
    """kind: None, 'line' or 'instr'."""
    global _mon_on
    want = {None: 0, "line": _mon.events.LINE, "instr": _mon.events.INSTRUCTION}[kind]
    key = (kind, len(CODES))
    if _mon_on == key:
        return
    if _mon.get_tool(TOOL) is None:
        _mon.use_tool_id(TOOL, "dst")
        _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instr)
    for co in CODES:
        if co.co_name == "<module>":
            continue
        _mon.set_local_events(TOOL, co, want)
    _mon_on = key


def in_import():
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


# ------------------------------------------------------------------ calling the library
def _form(hexs, form):
    if hexs is None:
        return None
    if form == "bytes":
        return bytes.fromhex(hexs)
    if form == "HEX":
        return hexs.upper()
    if form == "raw":
        return hexs
    return hexs


def norm(v):
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return "0x" + bytes(v).hex()
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return "<%s>" % type(v).__name__


class Wrapped:
    """A caller's own type around a value it should have unwrapped."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Wrapped(...)"


def mistyped(v, how):
    return {"bytes": lambda: v.encode("utf-8"), "bytearray": lambda: bytearray(v.encode("utf-8")), "list": lambda: [v],
            "tuple": lambda: (v, "x"), "dict": lambda: {"value": v}, "object": lambda: Wrapped(v), "words": lambda: v.split(" ")}[how]()


def invoke(img, op, a):
    """Run one operation of the public interface on an image."""
    if a.get("ptype"):
        f, how = a["ptype"]
        if isinstance(a.get(f), str):
            a = dict(a, **{f: mistyped(a[f], how)})
            if f in ("seed", "salt", "key"):
                a["form"] = "raw"
    if op in ("encrypt", "mint", "confirm", "decrypt"):
        if a.get("fresh"):      # an instance made for this call alone
            cls = getattr(img.coins, a["coin"])
            o = img.BIP38(cryptocurrency=cls) if a.get("inet") is None else img.BIP38(cryptocurrency=cls, network=a["inet"])
        else:
            o = img.instance(a["coin"], a.get("inet"), a.get("itag", ""))
        kw = {}
        if a.get("network") is not None or a.get("netnone"):
            kw["network"] = a.get("network")
        if op == "encrypt":
            return o.encrypt(wif=a["wif"], passphrase=a["passphrase"], **kw)
        if op == "mint":
            if a.get("seed") is not None:
                kw["seed"] = _form(a["seed"], a.get("form"))
            return o.create_new_encrypted_wif(intermediate_passphrase=a["code"],
                                              wif_type=a.get("wif_type", "wif"), **kw)
        if a.get("detail") is not None:
            kw["detail"] = a["detail"]
        if op == "confirm":
            return o.confirm_code(passphrase=a["passphrase"], confirmation_code=a["cfrm"], **kw)
        return o.decrypt(encrypted_wif=a["ewif"], passphrase=a["passphrase"], **kw)
    if op == "code":
        kw = {}
        if a.get("lot") is not None:
            kw["lot"] = a["lot"]
        if a.get("sequence") is not None:
            kw["sequence"] = a["sequence"]
        if a.get("salt") is not None:
            kw["owner_salt"] = _form(a["salt"], a.get("form"))
        if a.get("via"):      # class method reached through an instance
            return img.instance(a["via"]).intermediate_code(passphrase=a["passphrase"], **kw)
        return img.BIP38.intermediate_code(passphrase=a["passphrase"], **kw)
    if op == "new":
        cls = getattr(img.coins, a["coin"]) if a["coin"] in dir(img.coins) else type(a["coin"], (), {})
        kw = {} if a.get("inet") is None else {"network": a["inet"]}
        img.BIP38(cryptocurrency=cls, **kw)
        return "instance"
    w = img.wif
    if op in ("p2w", "w2p", "wtype", "wchk"):
        kw = {}
        if a.get("coin") is not None:
            kw["cryptocurrency"] = getattr(img.coins, a["coin"])
        if a.get("network") is not None:
            kw["network"] = a["network"]
        if op == "p2w":
            if a.get("wif_type") is not None:
                kw["wif_type"] = a["wif_type"]
            return w.private_key_to_wif(private_key=_form(a["key"], a.get("form")), **kw)
        f = {"w2p": w.wif_to_private_key, "wtype": w.get_wif_type, "wchk": w.get_wif_checksum}[op]
        return f(wif=a["wif"], **kw)
    if op == "wenc":
        return w.encode_wif(private_key=_form(a["key"], a.get("form")), wif_prefix=a["prefix"])
    if op == "wdec":
        return w.decode_wif(wif=a["wif"], wif_prefix=a["prefix"])
    if op == "aenc":
        kw = {k: a[k] for k in ("address_prefix", "public_key_type", "alphabet") if a.get(k) is not None}
        if a.get("form") == "object":
            return img.addr.P2PKHAddress.encode(img.curve.PublicKey.from_bytes(bytes.fromhex(a["pub"])), **kw)
        return img.addr.P2PKHAddress.encode(_form(a["pub"], a.get("form")), **kw)
    if op == "adec":
        kw = {k: a[k] for k in ("address_prefix", "alphabet") if a.get(k) is not None}
        return img.addr.P2PKHAddress.decode(a["address"], **kw)
    if op == "h160":
        return img.crypto.hash160(_form(a["data"], a.get("form")))
    if op == "r160":
        return img.crypto.ripemd160(_form(a["data"], a.get("form")))
    raise AssertionError(op)


class Outcome:
    __slots__ = ("ok", "value", "exc", "cls", "lib", "passerr", "text", "damaged")

    def __init__(self, ok, value=None, exc=None, img=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.text = ""
        self.damaged = False
        self.cls, self.lib, self.passerr = None, False, False
        if exc is not None:
            self.cls = type(exc).__name__
            self.lib = isinstance(exc, img.exc.Error)
            self.passerr = isinstance(exc, img.exc.PassphraseError)

    def key(self):
        return ["ok", self.value] if self.ok else ["err", self.cls]

    def show(self):
        if self.ok:
            return "returned %r" % (self.value,)
        return "raised %s%s" % (self.cls, "" if self.lib else " (not a library error)")


INTERNAL = ("form", "coin", "itag", "via", "op")


def call(img, op, a):
    """Invoke and normalise; the caller has installed a context."""
    global HOOK
    img.activate()
    counting = CALL_BUDGET is not None and HOOK is None
    if counting:
        events("line")
        n = [0]

        def count(code, line):
            n[0] += 1
            if n[0] > CALL_BUDGET:
                raise SimAbort("%s ran more than %d lines" % (op, CALL_BUDGET))
        HOOK = count
    try:         # every call gets text of its own, freed afterwards, as if it had just arrived
        v = invoke(img, op, {k: (t + "\0")[:-1] if type(t) is str and k not in INTERNAL else t for k, t in a.items()})
    except SimAbort:
        raise
    except BaseException as e:  # noqa: B902 - cancellation is one of the injected faults
        return Outcome(False, exc=e, img=img)
    finally:
        if counting:
            HOOK = None
    out = norm(v)
    if isinstance(v, (dict, list)):      # the answer is the caller's to change
        v.clear()
    return Outcome(True, out)
