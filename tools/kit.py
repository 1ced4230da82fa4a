"""Helpers of the demonstrations (copied beside each demo.py; run with cwd = the repository)."""
import os
import pickle
import select
import signal
import sys
import threading
import time

sys.path.insert(0, os.getcwd())
MARK = os.sep + "lunar_python" + os.sep


def iso(fn, timeout=30):
    """fn() in a forked child: ("ok", value), ("exc", text) or ("hang",)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = ("ok", fn())
            except BaseException as e:
                v = ("exc", "%s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    b = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            b = b""
            break
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    if not b:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ("hang",)


def at(fn, k, action, where=None, opcodes=False):
    """fn() with action() made at its k-th line (or instruction) inside the library (in functions whose name is in where)"""
    n = [0]

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                try:
                    action()
                finally:
                    n[0] = 1 << 60
        return local

    def glob(frame, event, arg):
        if n[0] < (1 << 59) and MARK in frame.f_code.co_filename and (where is None or frame.f_code.co_name in where):
            frame.f_trace_opcodes = opcodes
            return local
        return None
    if opcodes:
        sys._getframe().f_trace_opcodes = True      # (3.12 looks at this when tracing starts)
    sys.settrace(glob)
    try:
        return fn()
    finally:
        sys.settrace(None)


def points(fn, where=None, opcodes=False):
    n = [0]

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            n[0] += 1
        return local

    def glob(frame, event, arg):
        if MARK in frame.f_code.co_filename and (where is None or frame.f_code.co_name in where):
            frame.f_trace_opcodes = opcodes
            return local
        return None
    if opcodes:
        sys._getframe().f_trace_opcodes = True      # (3.12 looks at this when tracing starts)
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def sweep(fn, where=None, opcodes=False, most=150):
    """points to try: spread over all of them, or the first -most"""
    r = iso(lambda: points(fn, where, opcodes))
    n = r[1] if r[0] == "ok" else 0
    if most < 0:
        return range(1, min(n, -most) + 1)
    step = max(1, n // most)
    return range(1, n + 1, step)


def other(fn, timeout=10):
    """fn() in another thread, meanwhile this one stands still: ("ok", value), ("exc", text) or ("hang",)"""
    out = [("hang",)]

    def body():
        try:
            out[0] = ("ok", fn())
        except BaseException as e:
            out[0] = ("exc", "%s: %s" % (type(e).__name__, e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(timeout)
    return out[0]


def race(a, b, where=None, opcodes=False, most=150):
    """first point of a() at which b() in another thread makes either answer wrong, or None"""
    ra, rb = iso(a), iso(b)
    for k in sweep(a, where, opcodes, most):
        def run():
            got = []
            va = at(a, k, lambda: got.append(other(b)), where, opcodes)
            return va, got
        r = iso(run)
        if r[0] != "ok":
            return k, r
        va, got = r[1]
        if ("ok", va) != ra or (got and got[0] != rb):
            return k, r, ra, rb
    return None


def nested(a, b, where=None, opcodes=False, most=150):
    """the same, with b() called on the same thread (as a signal handler would)"""
    ra, rb = iso(a), iso(b)
    for k in sweep(a, where, opcodes, most):
        def run():
            got = []
            va = at(a, k, lambda: got.append(b()), where, opcodes)
            return va, got
        r = iso(run, 10)
        if r[0] != "ok" or ("ok", r[1][0]) != ra or (r[1][1] and ("ok", r[1][1][0]) != rb):
            return k, r, ra, rb
    return None


def struck(a, after, where=None, opcodes=False, most=150, exc=KeyboardInterrupt):
    """first point of a() at which an exception makes after() answer wrongly, or None"""
    want = iso(after)
    for k in sweep(a, where, opcodes, most):
        def boom():
            raise exc("injected")

        def run():
            try:
                at(a, k, boom, where, opcodes)
            except exc:
                pass
            return other(after)
        r = iso(run, 20)
        if r[0] != "ok" or r[1] != want:
            return k, r, want
    return None


def forked(a, after, where=None, opcodes=False, most=60):
    """first point of a() at which a fork by another thread leaves the child unable to answer after(), or None"""
    want = iso(after)
    for k in sweep(a, where, opcodes, most):
        def run():
            got = []
            at(a, k, lambda: got.append(other(lambda: iso(after, 5), 15)), where, opcodes)
            return got
        r = iso(run, 30)
        if r[0] != "ok" or (r[1] and r[1][0] != ("ok", want)):
            return k, r, want
    return None


def verdict(bad):
    if bad:
        print("BROKEN:", str(bad)[:1500])
        sys.stdout.flush()
        os._exit(1)
    print("fine")
    sys.stdout.flush()
    os._exit(0)
