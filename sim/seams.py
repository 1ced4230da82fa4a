"""Seams: everything nondeterministic that lunar_python can reach goes through here.

Import this module before lunar_python.  `install()` replaces the lock primitives and
the clock by simulated ones; `load()` imports the library from the tree under test.

No hook inside /repo is needed: the library reaches threads' locks, the clock and the
random generator only through standard library modules whose attributes are replaced
here before the library is imported.
"""
import sys
import os
import time as _time_mod
import datetime as _dt_mod
import threading
import _thread
import random

REPO = os.environ.get("VERIF_REPO", "/repo")

raw_lock = _thread.allocate_lock          # kept before patching: used by the scheduler only
real_time = _time_mod.time
real_perf = _time_mod.perf_counter
real_sleep = _time_mod.sleep


class SimDeadlock(BaseException):
    """Raised inside a simulated client that would wait forever."""


SLEEPS = [0]
MOST_SLEEPS = 20000


def sim_sleep(s):
    """simulated time passes; other callers may run meanwhile. Endless waiting by sleeping is found by count."""
    CLOCK.advance(s)
    SLEEPS[0] += 1
    if SLEEPS[0] > MOST_SLEEPS:
        raise SimDeadlock("sleeps %d times without getting on" % MOST_SLEEPS)
    if HOOK is not None:
        HOOK.slept()


# ------------------------------------------------------------------ locks
# The scheduler, when one is active, sets HOOK to an object with
#   me() -> client id or None, block(lock, timeout) -> bool, wake(lock), touched(lock)
HOOK = None
LOCK_SEQ = [0]
LOCK_OPS = {"acquire": 0, "contended": 0, "release": 0}


class SimLock:
    """Non-reentrant lock decided by the scheduler."""
    _reentrant = False

    def __init__(self):
        LOCK_SEQ[0] += 1
        self._id = LOCK_SEQ[0]
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        LOCK_OPS["acquire"] += 1
        me = self._me()
        if HOOK is not None:
            HOOK.touched(self)
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        if not blocking:
            return False
        LOCK_OPS["contended"] += 1
        if HOOK is not None:
            ok = HOOK.block(self, None if timeout is None or timeout < 0 else timeout)
            if ok:
                self._owner = me
                self._count = 1
            return ok
        if timeout is not None and timeout >= 0:
            CLOCK.advance(timeout)
            return False
        raise SimDeadlock("waits forever for a lock nobody will release")

    __enter__ = acquire

    def release(self):
        LOCK_OPS["release"] += 1
        if HOOK is not None:
            HOOK.touched(self)
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant:
            if self._owner != self._me():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._count = 0
        if HOOK is not None:
            HOOK.wake(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # needed by threading.Condition for RLocks
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        if HOOK is not None:
            HOOK.wake(self)
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._owner, self._count = state

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self._reentrant else "lock"))

    def __repr__(self):
        return "<SimLock #%d %s>" % (self._id, "held" if self._owner is not None else "free")


class SimRLock(SimLock):
    _reentrant = True


def _sim_lock():
    return SimLock()


def _sim_rlock():
    return SimRLock()


# ------------------------------------------------------------------ clock
class SimClock:
    """A clock whose every reading is decided by the run.

    `plan` is a list of jumps: the n-th reading (counting from 0) first moves the clock
    by plan[n] seconds if n is in it.
    """
    EPOCH = 1718452800.0   # 2024-06-15T12:00:00Z

    def __init__(self):
        self.reset()

    def reset(self, now=None, plan=None, step=0.0):
        self.now = self.EPOCH if now is None else float(now)
        self.mono = 0.0
        self.plan = dict(plan or {})
        self.step = step
        self.reads = 0
        self.log = []          # years shown, in reading order
        self.jumps = 0
        self.covered = 0.0

    def advance(self, dt):
        self.now += dt
        self.covered += abs(dt)
        if dt > 0:
            self.mono += dt

    def read(self):
        n = self.reads
        self.reads += 1
        if n in self.plan:
            v = self.plan[n]
            dt = (v[1] - self.now) if isinstance(v, (list, tuple)) else v
            self.now += dt
            self.covered += abs(dt)
            self.jumps += 1
        elif self.step:
            self.advance(self.step)
        self.log.append(self.now)
        return self.now

    def read_mono(self):
        self.reads += 1
        return self.mono


CLOCK = SimClock()
_real_datetime = _dt_mod.datetime
_real_date = _dt_mod.date
_EPOCH0 = _real_datetime(1970, 1, 1)
_UTC0 = _real_datetime(1970, 1, 1, tzinfo=_dt_mod.timezone.utc)


def _utc_naive(ts):
    return _EPOCH0 + _dt_mod.timedelta(seconds=ts)


def _local_naive(ts):
    """Local time of the simulated instant in the process's time zone (real zone rules)."""
    try:
        lt = _real_localtime(ts)
        return _real_datetime(lt.tm_year, lt.tm_mon, lt.tm_mday, lt.tm_hour, lt.tm_min,
                              min(lt.tm_sec, 59), int((ts % 1) * 1e6))
    except (OverflowError, OSError, ValueError):
        return _utc_naive(ts)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class SimDateTime(_real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        ts = CLOCK.read()
        if tz is None:
            return _local_naive(ts)
        return (_UTC0 + _dt_mod.timedelta(seconds=ts)).astimezone(tz)

    @classmethod
    def today(cls):
        return _local_naive(CLOCK.read())

    @classmethod
    def utcnow(cls):
        return _utc_naive(CLOCK.read())


class _DMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_date)


class SimDate(_real_date, metaclass=_DMeta):
    @classmethod
    def today(cls):
        return _local_naive(CLOCK.read()).date()


SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
SimDate.__name__ = SimDate.__qualname__ = "date"
SimDateTime.__module__ = SimDate.__module__ = "datetime"

_real_localtime = _time_mod.localtime
_real_gmtime = _time_mod.gmtime
_real_strftime = _time_mod.strftime
_real_ctime = _time_mod.ctime
_real_asctime = _time_mod.asctime
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    # never load stale bytecode of the tree under test
    sys.pycache_prefix = "/nonexistent-pycache"
    threading.Lock = _sim_lock
    threading.RLock = _sim_rlock
    threading._PyRLock = SimRLock
    threading._CRLock = _sim_rlock
    threading._allocate_lock = _sim_lock
    _thread.allocate_lock = _sim_lock
    _thread.allocate = _sim_lock
    _thread.RLock = SimRLock

    _dt_mod.datetime = SimDateTime
    _dt_mod.date = SimDate
    t = _time_mod
    t.time = lambda: CLOCK.read()
    t.time_ns = lambda: int(CLOCK.read() * 1e9)
    t.monotonic = lambda: CLOCK.read_mono()
    t.monotonic_ns = lambda: int(CLOCK.read_mono() * 1e9)
    t.perf_counter = lambda: CLOCK.read_mono()
    t.perf_counter_ns = lambda: int(CLOCK.read_mono() * 1e9)
    t.process_time = lambda: CLOCK.read_mono()
    t.process_time_ns = lambda: int(CLOCK.read_mono() * 1e9)
    t.thread_time = lambda: CLOCK.read_mono()
    t.clock_gettime = lambda clk: CLOCK.read() if clk == getattr(t, "CLOCK_REALTIME", 0) else CLOCK.read_mono()
    t.sleep = sim_sleep
    t.localtime = lambda s=None: _real_localtime(CLOCK.read() if s is None else s)
    t.gmtime = lambda s=None: _real_gmtime(CLOCK.read() if s is None else s)
    t.ctime = lambda s=None: _real_ctime(CLOCK.read() if s is None else s)
    t.strftime = lambda fmt, tup=None: _real_strftime(fmt, _real_localtime(CLOCK.read()) if tup is None else tup)
    t.asctime = lambda tup=None: _real_asctime(_real_localtime(CLOCK.read()) if tup is None else tup)


MODS = {}
CODE = {}            # file -> code of the module, once it has been kept (keep_code)
LOADS = [0, None]    # how many modules were loaded since; (which of them cannot be read, exception)


def keep_code():
    """From here on the library's modules are compiled once: importing them again in a fork executes the very code objects
    that are instrumented; and reading one can be made to fail."""
    from importlib.machinery import SourceFileLoader
    real = SourceFileLoader.get_code
    root = os.path.join(os.path.realpath(REPO), "lunar_python") + os.sep

    def get_code(self, name):
        path = os.path.realpath(self.path)
        if not path.startswith(root):
            return real(self, name)
        LOADS[0] += 1
        if LOADS[1] and LOADS[1][0] == LOADS[0]:
            raise LOADS[1][1]
        if path not in CODE:
            CODE[path] = real(self, name)
        return CODE[path]
    SourceFileLoader.get_code = get_code


def unload():
    """as if nothing of the library had been imported yet"""
    for k in list(sys.modules):
        if k == "lunar_python" or k.startswith("lunar_python."):
            del sys.modules[k]
    MODS.clear()


def load(repo=None):
    """Import every module of the library from the tree under test; returns its root module."""
    install()
    repo = os.path.realpath(repo or REPO)
    sys.path.insert(0, repo)
    random.seed(0)
    import lunar_python
    here = os.path.realpath(os.path.dirname(lunar_python.__file__))
    want = os.path.join(repo, "lunar_python")
    if here != want:
        raise RuntimeError("lunar_python imported from %s, not %s" % (here, want))
    import importlib
    for base, dirs, files in os.walk(want):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(base, f), repo)[:-3]
            name = rel.replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            MODS[name] = importlib.import_module(name)
    return lunar_python


def library_codes():
    """All code objects defined by the library: {key: code}; key = 'module:qualname:firstline'."""
    import types
    out = {}
    seen = set()
    root = os.path.join(os.path.realpath(REPO), "lunar_python") + os.sep

    def add_code(co, mod):
        if not os.path.realpath(co.co_filename).startswith(root):
            return
        key = "%s:%s:%d" % (os.path.relpath(co.co_filename, root), co.co_qualname, co.co_firstlineno)
        if key not in out:
            out[key] = co
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                add_code(c, mod)

    def walk(obj):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        if isinstance(obj, types.FunctionType):
            add_code(obj.__code__, None)
            if obj.__closure__:
                for c in obj.__closure__:
                    try:
                        walk(c.cell_contents)
                    except ValueError:
                        pass
            w = getattr(obj, "__wrapped__", None)
            if w is not None:
                walk(w)
        elif isinstance(obj, (staticmethod, classmethod)):
            walk(obj.__func__)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    walk(f)
        elif isinstance(obj, type):
            if str(getattr(obj, "__module__", "")).startswith("lunar_python"):
                for v in list(vars(obj).values()):
                    walk(v)
        elif hasattr(obj, "__wrapped__"):
            walk(obj.__wrapped__)
        elif hasattr(obj, "func") and callable(getattr(obj, "func", None)):
            walk(obj.func)

    for m in MODS.values():
        for v in list(vars(m).values()):
            walk(v)
    for co in CODE.values():
        add_code(co, None)
    return out
