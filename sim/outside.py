"""What is not the library's: the rest of the process, as it looks at one moment, and what reaches the world outside.

`begin` records how everything stands; `look` compares. Destructive or outward calls of the code under test are
recorded by an audit hook and refused there, so that they reach nothing real.
"""
import os
import sys
import gc
import builtins
import calendar
import collections
import copy
import copyreg
import datetime
import decimal
import functools
import itertools
import json
import locale
import logging
import math
import operator
import random
import resource
import signal
import socket
import string
import threading
import time
import warnings
import _thread

from . import seams

MODULES = (builtins, calendar, collections, copy, copyreg, datetime, decimal, functools, itertools, json, locale, math, operator, random,
           signal, string, time, warnings, os, os.path)
STATE = {}
SEEN = []
ACTIVE = [False]
# audit events by which a call reaches out of the process
OUT = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime", "os.chdir",
       "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.kill", "os.killpg", "os.putenv", "os.unsetenv", "os.setxattr",
       "os.removexattr", "os.startfile", "os.lockf", "shutil.", "tempfile.", "subprocess.Popen", "socket.", "ftplib.", "smtplib.", "urllib.", "http.",
       "syslog.", "fcntl.", "signal.pthread_kill", "resource.setrlimit", "webbrowser.", "sqlite3.", "mmap.__new__", "ctypes.")
OURS = ("/dev/null",)


def _audit(event, args):
    if not ACTIVE[0]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
            mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if wr and path not in OURS and not (isinstance(path, str) and path.startswith("/nonexistent-pycache")):
            _hit("opens a file for writing", path)
        return
    for p in OUT:
        if event == p or (p[-1] == "." and event.startswith(p)):
            _hit(event, args[0] if args else None)


def _hit(what, arg):
    if len(SEEN) < 20:
        SEEN.append([what, repr(arg)[:120]])
    raise PermissionError("refused by the simulator: " + what)


def everywhere():
    """what every thread of the process sees"""
    s = {
        "environment variables": dict(os.environ),
        "working directory": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": [time.tzname, time.timezone, seams._real_localtime(0)[:6], seams._real_localtime(1720000000)[:6]],
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "garbage collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()],
        "signal handlers": [id(signal.getsignal(n)) for n in (1, 2, 3, 10, 12, 13, 14, 15, 17, 26, 27)],
        "interval timers": [signal.getitimer(n)[1] for n in (0, 1, 2)] + [signal.getitimer(n)[0] > 0 for n in (0, 1, 2)],
        "signal mask": sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, ())),
        "exception and display hooks": [id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(threading.excepthook)],
        "trace hooks of new threads": [id(threading.gettrace()), id(threading.getprofile())],
        "random-number generator": hash(random.getstate()),
        "warning filters": [repr(warnings.filters), id(warnings.showwarning), id(warnings.formatwarning)],
        "default number settings": _dec(decimal.DefaultContext),
        "module search path": [list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]],
        "bytecode and import settings": [sys.dont_write_bytecode, sys.pycache_prefix],
        "output streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__)],
        "calendar's first weekday": calendar.firstweekday(),
        "pickling and copying registry": sorted(str(k) for k in copyreg.dispatch_table) + [len(copy._deepcopy_dispatch), len(copy._copy_dispatch)],
        "logging": [logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable, id(logging.getLoggerClass()),
                    logging.raiseExceptions],
        "socket timeout": socket.getdefaulttimeout(),
        "integer string limit": sys.get_int_max_str_digits(),
        "stack size of new threads": threading.stack_size(),
        "resource limits": [resource.getrlimit(n) for n in (resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "file mode mask": _umask(),
        "standard modules": {m.__name__: {k: id(v) for k, v in vars(m).items() if not k.startswith("__")} for m in MODULES},
        "json encoder": [id(json.JSONEncoder.default), id(json.JSONDecoder.decode)],
    }
    return s


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask:"):
                return line.split()[1]


def _dec(c):
    return [c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(k.__name__ for k, v in c.traps.items() if v)]


def mine():
    """what the calling thread sees as its own"""
    import contextlib     # noqa: F401  (so that a first import of it is not the library's)
    return {"number settings": _dec(decimal.getcontext()), "trace and profile hooks": [id(sys.gettrace()), id(sys.getprofile())]}


def quiet():
    """what must be left once every call has ended"""
    gc.collect()
    for f in (sys.stdout, sys.stderr):
        try:
            f.flush()
        except Exception:
            pass
    n = m = 0
    for _ in range(200):
        m = _thread._count()
        if m <= STATE.get("threads", m):
            break
        seams.real_sleep(0.01)
    return {"running threads": m, "open files": len(os.listdir("/proc/self/fd")), "output": [os.fstat(1).st_size, os.fstat(2).st_size],
            "finalizers and exit handlers": n}


def begin():
    a, b = os.memfd_create("out"), os.memfd_create("err")
    os.dup2(a, 1)
    os.dup2(b, 2)
    os.close(a)
    os.close(b)
    sys.addaudithook(_audit)
    gc.set_threshold(1 << 30)       # on, as in a process of its own, but never at a moment of its choosing
    gc.enable()
    STATE["threads"] = _thread._count()
    STATE["modules"] = {k: id(v) for k, v in sys.modules.items() if not k.startswith("lunar_python")}
    STATE["all"] = everywhere()
    STATE["mine"] = mine()
    STATE["quiet"] = quiet()
    return ["ok"]


def diff(was, now):
    out = []
    for k in was:
        if was[k] != now.get(k):
            if isinstance(was[k], dict) and isinstance(now[k], dict):
                x = sorted(str(i) for i in set(was[k]) | set(now[k]) if was[k].get(i) != now[k].get(i))
                out.append([k, x[:6]])
            else:
                out.append([k, repr(was[k])[:160], repr(now[k])[:160]])
    return out


def look(own=False, end=False):
    """differences from how things stood before the first request"""
    on, ACTIVE[0] = ACTIVE[0], False
    try:
        d = diff(STATE["all"], everywhere())
        gone = [k for k, v in STATE["modules"].items() if k not in sys.modules or id(sys.modules[k]) != v]
        if gone:
            d.append(["loaded modules", gone[:6]])
        if own:
            d += diff(STATE["mine"], mine())
        if end:
            d += diff(STATE["quiet"], quiet())
        for what, arg in SEEN:
            d.append(["outside the process", what, arg])
        del SEEN[:]
        return d
    finally:
        ACTIVE[0] = on
