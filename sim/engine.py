"""The deterministic simulator: one program + one schedule = one exactly repeatable execution.

A program is JSON:
  {"env":   {"clock": seconds, "plan": {read#: jump}},
   "setup": [op...],                executed first, alone
   "clients": [[op...], ...],       one simulated caller each (real threads, parked; one runs at a time)
   "order": [ints],                 who continues at each operation boundary / forced choice
   "dirs":  [{"c","op","code","off","occ","act"}...]   what happens inside calls
   "final": [op...]}                executed last, alone, after all faults stopped

A directive names an instruction (code object, offset) inside operation `op` of client `c`, and
the `occ`-th time it is reached (0: every time) performs `act`:
  ["switch", k]    preempt: client k (or the next runnable) continues
  ["raise", name]  the call is hit by an exception here
  ["nest", query]  code running in the middle of the call makes another call (same thread)
  ["nestrd", slot, paths]  likewise, reading a shared object
  ["gc"]           a garbage collection runs here
  ["clock", dt]    the clock jumps here
Instead of an instruction a directive may give "nth": the n-th library instruction the operation executes, or
the first one after it where the action is possible (the program then says "all": every instruction is counted).
Everything else (bytecode between directives) is the library's own real code.
"""
import sys
import os
import gc
import copy
import itertools
import json
import pickle
import time as _t
import dis
import hashlib
import random
import select
import signal
import threading
import _thread

from . import seams
from . import companion
from . import catalog as C

MON = sys.monitoring
TOOL = 3
EV = MON.events


class SimTimeout(Exception):
    """A caller's timeout delivered as an ordinary exception."""


class SimCancel(BaseException):
    """A cancellation that `except Exception` does not stop."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "SimTimeout": SimTimeout,
    "SimCancel": SimCancel,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,
    "OSError": OSError,
}

CODES = {}      # key -> code
KEYOF = {}      # code -> key
INFO = {}       # key -> CodeInfo


MUTATORS = ("append", "extend", "insert", "pop", "popitem", "remove", "clear", "reverse", "sort", "update", "setdefault", "add", "discard",
            "appendleft", "popleft", "rotate", "__setitem__", "__delitem__", "move_to_end")


class CodeInfo:
    """Instruction list of a code object with what may happen at each offset."""

    def __init__(self, key, co):
        self.key = key
        self.co = co
        ins = [i for i in dis.get_instructions(co) if i.opname != "CACHE"]
        self.offs = [i.offset for i in ins]
        self.line = {}
        ln = co.co_firstlineno
        for i in ins:
            if i.positions and i.positions.lineno:
                ln = i.positions.lineno
            self.line[i.offset] = ln
        try:
            table = dis._parse_exception_table(co)
        except Exception:
            table = []
        self.has_handlers = bool(table)

        def region(off):
            for e in table:
                if e.start <= off < e.end:
                    return e.target
            return None
        self.exc_any = set()       # an asynchronous exception may strike just before this instruction
        self.exc_mem = set()       # an allocation made by this instruction may fail
        self.calls = set()
        lockish = set()
        prev = None
        names = []
        for i in ins:
            nm = i.argval if isinstance(i.argval, str) else ""
            names.append(nm)
            if i.opname.startswith("CALL"):
                # which method is called: nearest attribute load before
                who = next((x for x in reversed(names[:-1]) if x), "")
                self.calls.add(i.offset)
                if who in ("acquire", "release", "__enter__", "__exit__", "acquire_lock", "release_lock", "locked"):
                    lockish.add(i.offset)
        locknames = any(n in ("acquire", "release", "__enter__", "__exit__") for n in names)
        wp = [i.opname for i in ins]
        for n, i in enumerate(ins):
            off = i.offset
            if n == 0:
                pass
            p = ins[n - 1] if n else None
            simple = not self.has_handlers and not locknames and "BEFORE_WITH" not in wp
            if i.opname in ("RETURN_GENERATOR", "COPY_FREE_VARS", "MAKE_CELL") or off < self._resume(ins):
                continue
            if simple:
                # no cleanup code in this function that an exception could skip
                if off > self._resume(ins):
                    self.exc_any.add(off)
            elif p is not None:
                # exactly where CPython may deliver: after a call or a backward jump, if it is
                # still attributed to the same protected region
                if (p.opname.startswith("CALL") and p.offset not in lockish) and region(off) == region(p.offset) \
                        and not self._with_exit(ins, n - 1):
                    self.exc_any.add(off)
                elif p.opname == "RESUME":
                    self.exc_any.add(off)
            if i.opname.startswith("CALL") and off not in lockish and not self._with_exit(ins, n):
                self.exc_mem.add(off)
            elif i.opname.startswith("BUILD_") or i.opname in ("BINARY_OP", "LIST_APPEND", "BINARY_SLICE", "FORMAT_VALUE"):
                self.exc_mem.add(off)
        self.opname = {i.offset: i.opname for i in ins}
        self.refs = {}             # name -> offsets of the instructions that name it, and of those just after
        for n, i in enumerate(ins):
            if isinstance(i.argval, str) and i.opname.startswith(("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR", "LOAD_GLOBAL",
                                                                  "STORE_GLOBAL", "LOAD_DEREF", "STORE_DEREF", "LOAD_SUPER")):
                self.refs.setdefault(i.argval, set()).update(j.offset for j in ins[n:n + 3])
        self.resume = self._resume(ins)
        self.names = set(co.co_names)
        # code that runs once, while a module or class is made: where it does more than make things
        self.effects = set()
        if not co.co_flags & 1:
            for n, i in enumerate(ins):
                if i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL") or (
                        i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in MUTATORS):
                    self.effects.update(j.offset for j in ins[n:n + 8])
                elif i.opname == "FOR_ITER":
                    self.effects.update(j.offset for j in ins if i.offset <= j.offset <= i.argval)
        # where something that may be shared is changed in place: offset -> (local variable or None, offsets to look at)
        self.changes = {}
        self.stored = set()        # attributes of classes and modules that are assigned
        for n, i in enumerate(ins):
            p = ins[n - 1] if n else None
            if i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in MUTATORS and p is not None:
                who = p.argval[-1] if isinstance(p.argval, tuple) else p.argval
                if p.opname.startswith("LOAD_FAST"):
                    self.changes[i.offset] = (who, [j.offset for j in ins[n:n + 10]])
                elif p.opname == "LOAD_ATTR" and n > 1 and ins[n - 2].opname in ("LOAD_GLOBAL", "LOAD_DEREF", "LOAD_NAME"):
                    self.stored.add(p.argval)
                    self.changes[i.offset] = ("", [j.offset for j in ins[n:n + 10]])
                elif p.opname == "LOAD_ATTR" and n > 1 and ins[n - 2].opname.startswith("LOAD_FAST"):
                    who = ins[n - 2].argval
                    self.changes[i.offset] = (who[-1] if isinstance(who, tuple) else who, [j.offset for j in ins[n:n + 10]])
                elif p.opname in ("LOAD_GLOBAL", "LOAD_DEREF"):
                    self.changes[i.offset] = ("", [j.offset for j in ins[n:n + 10]])
            elif i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE"):
                self.changes[i.offset] = (None, [j.offset for j in ins[n:n + 6]])
            elif i.opname in ("STORE_ATTR", "DELETE_ATTR") and p is not None and p.opname in ("LOAD_GLOBAL", "LOAD_DEREF"):
                self.stored.add(i.argval)
                self.changes[i.offset] = ("", [j.offset for j in ins[n:n + 10]])
            elif i.opname in ("STORE_ATTR", "DELETE_ATTR") and p is not None and p.opname.startswith("LOAD_FAST"):
                self.changes[i.offset] = (p.argval[-1] if isinstance(p.argval, tuple) else p.argval, [j.offset for j in ins[n:n + 10]])
            elif i.opname in ("STORE_GLOBAL", "STORE_DEREF"):
                self.stored.add(i.argval)

    @staticmethod
    def _resume(ins):
        for i in ins:
            if i.opname == "RESUME":
                return i.offset
        return 0

    @staticmethod
    def _with_exit(ins, n):
        """instruction n is the CALL of a with-statement's normal exit (three LOAD_CONST None before it)"""
        return n >= 3 and all(ins[n - j].opname == "LOAD_CONST" and ins[n - j].argval is None for j in (1, 2, 3))


def init():
    CODES.update(seams.library_codes())
    for k, co in CODES.items():
        KEYOF[co] = k
    try:
        MON.use_tool_id(TOOL, "sim")
    except ValueError:
        pass


def info(key):
    if key not in INFO:
        INFO[key] = CodeInfo(key, CODES[key])
    return INFO[key]


# ------------------------------------------------------------------ scheduler
class Sched:
    def __init__(self, prog):
        self.prog = prog
        self.n = len(prog["clients"])
        self.locks = [seams.raw_lock() for _ in range(self.n)]
        for l in self.locks:
            l.acquire()
        self.main = seams.raw_lock()
        self.main.acquire()
        self.state = ["ready"] * self.n       # ready, blocked, done
        self.waiting = {}                     # client -> (lock, deadline or None)
        self.wake_result = {}
        self.ident = {}
        self.cur = None
        self.order = list(prog.get("order") or [])
        self.opi = [-1] * self.n
        self.seq = 0
        self.log = []                         # event log (determinism, interleavings)
        self.switches = []                    # where control changed hands
        self.fired = []                       # directives that fired
        self.occ = {}
        self.deadlock = False
        self.dead_clients = set()
        self.in_child = False
        self.lock_touch = {}
        self.dirs = {}
        self.nth = {}                         # (client, op) -> directives that give an instruction count, in order
        self.count = [0] * self.n
        self.want = [None] * self.n
        self.walk = prog.get("walk")
        self.wrng = random.Random(self.walk["seed"]) if self.walk else None
        self.pending = {}                     # code -> directives that may still act
        for d in prog.get("dirs") or []:
            if "nth" in d:
                self.nth.setdefault((d["c"], d["op"]), []).append(d)
                continue
            self.dirs.setdefault((d["c"], d["op"], d["code"], d["off"]), []).append(d)
            self.pending.setdefault(d["code"], []).append(d)
        for ds in self.nth.values():
            ds.sort(key=lambda d: -d["nth"])
        self.watched = set(prog.get("watch") or [])
        self.steps = 0
        self.nested = []
        self.opdirs = {}                      # (client, op) -> names of exceptions injected
        self.nest_busy = set()

    # ---- called from client threads
    def me(self):
        return self.ident.get(_thread.get_ident())

    def ev(self, *a):
        self.seq += 1
        if len(self.log) < 4000:
            self.log.append((self.seq,) + a)

    def runnable(self):
        return [i for i in range(self.n) if self.state[i] == "ready"]

    def pick(self, prefer=None):
        r = self.runnable()
        if not r:
            return self.idle()
        if prefer is not None and prefer in r:
            return prefer
        if self.order:
            return r[self.order.pop(0) % len(r)]
        return r[0]

    def idle(self):
        """Nobody can run: fire the earliest lock timeout, or it is a deadlock."""
        timed = sorted((dl, c) for c, (l, dl) in self.waiting.items() if dl is not None and self.state[c] == "blocked")
        if timed:
            dl, c = timed[0]
            seams.CLOCK.advance(max(0.0, dl - seams.CLOCK.mono))
            self.state[c] = "ready"
            self.wake_result[c] = False
            self.ev("timeout", c)
            return c
        blocked = [i for i in range(self.n) if self.state[i] == "blocked"]
        if blocked:
            c = blocked[0]
            self.deadlock = True
            self.state[c] = "ready"
            self.wake_result[c] = "deadlock"
            self.ev("deadlock", c)
            return c
        return None

    def give(self, k, me):
        """hand control to client k (None: all done -> main); park unless me is None"""
        if k is not None and k == me:
            return
        self.cur = k
        if k is None:
            self.main.release()
        else:
            self.locks[k].release()
        if me is not None:
            self.locks[me].acquire()

    def block(self, lock, timeout):
        me = self.me()
        if me is None or self.in_child:
            if timeout is not None:
                seams.CLOCK.advance(timeout)
                return False
            self.deadlock = True
            raise seams.SimDeadlock("waits forever for a lock nobody will release")
        self.ev("block", me, lock._id)
        deadline = None if timeout is None else seams.CLOCK.mono + timeout
        while True:
            self.state[me] = "blocked"
            self.waiting[me] = (lock, deadline)
            self.wake_result[me] = None
            k = self.pick()
            self.switches.append(("lock", me, self.opi[me], k))
            self.give(k, me)
            self.waiting.pop(me, None)
            r = self.wake_result.pop(me, None)
            if r == "deadlock":
                self.dead_clients.add(me)
                raise seams.SimDeadlock("waits forever for a lock nobody will release")
            if r is False:
                return False
            if lock._owner is None:
                return True
            # somebody else took it first: wait again

    def slept(self):
        """a sleeping caller lets the others run"""
        me = self.me()
        if me is None or self.in_child:
            return
        r = [i for i in self.runnable() if i != me]
        if r:
            k = r[self.order.pop(0) % len(r)] if self.order else r[0]
            self.switches.append(("sleep", me, self.opi[me], k))
            self.ev("sleep", me, k)
            self.give(k, me)

    def wake(self, lock):
        if self.in_child:
            return
        for c, (l, dl) in list(self.waiting.items()):
            if l is lock and self.state[c] == "blocked":
                self.state[c] = "ready"
                self.wake_result[c] = True

    def touched(self, lock):
        me = self.me()
        if me is not None:
            self.lock_touch[me] = True

    # ---- instruction events
    def relevant(self, key, off):
        """may a directive of an operation now under way act here?"""
        opi = self.opi
        ds = self.pending.get(key)
        if ds:
            here = not seams.LOCK_OPS["acquire"]      # where locks are used, also see what follows a lock operation
            for d in ds:
                if opi[d["c"]] == d["op"] and (not here or d["off"] == off):
                    return True
        return False

    def begin(self, i, j):
        """operation j of client i starts: watch the code its directives name again"""
        ds = self.nth.get((i, j))
        self.want[i] = ds[-1]["nth"] if ds else None
        self.count[i] = 0
        if ds or any(d["c"] == i and d["op"] == j for ds in self.pending.values() for d in ds):
            MON.restart_events()

    def on_count(self, code, off):
        """the program counts instructions ("nth" directives)"""
        me = self.ident.get(_thread.get_ident())
        if me is None or self.in_child:
            return
        w = self.want[me]
        if w is None:
            if self.pending or any(x is not None for x in self.want):
                return self.on_instr(code, off) if self.pending else None
            return MON.DISABLE
        n = self.count[me] = self.count[me] + 1
        if n >= w:
            key = KEYOF[code]
            touched = self.lock_touch.pop(me, False)
            op = self.opi[me]
            ds = self.nth[me, op]
            a = ds[-1]["act"]
            if a[0] in ("switch", "look") or not touched and off in (info(key).exc_mem if a[1] in ("MemoryError", "RecursionError") else info(key).exc_any):
                ds.pop()
                self.want[me] = None
                self.steps += n
                try:
                    self.act(me, op, key, off, n, a, touched)
                finally:
                    if self.opi[me] == op:
                        self.want[me] = ds[-1]["nth"] if ds else None
        elif self.lock_touch:
            self.lock_touch.pop(me, None)
        if self.pending:
            return self.on_instr(code, off)

    def on_instr(self, code, off):
        me = self.ident.get(_thread.get_ident())
        if me is None or self.in_child:
            return
        key = KEYOF.get(code)
        if key is None:
            return MON.DISABLE
        if self.walk is None and key not in self.watched and not self.relevant(key, off):
            return MON.DISABLE        # nothing can happen here during the operations now under way
        self.steps += 1
        op = self.opi[me]
        touched = self.lock_touch.pop(me, False)
        k4 = (me, op, key, off)
        n = self.occ.get(k4, 0) + 1
        self.occ[k4] = n
        ds = self.dirs.get(k4)
        if ds:
            for d in ds:
                if d["occ"] == n or d["occ"] == 0:
                    if d["occ"] and d in self.pending[key]:
                        self.pending[key].remove(d)
                    self.act(me, op, key, off, n, d["act"], touched)
        if self.wrng is not None and self.wrng.random() < self.walk["rate"]:
            r = [i for i in self.runnable() if i != me]
            if r and len(self.fired) < self.walk.get("max", 40):
                k = r[self.wrng.randrange(len(r))]
                self.act(me, op, key, off, n, ["switch", k], touched)

    def act(self, me, op, key, off, n, a, touched):
        kind = a[0]
        if kind == "raise" and touched:
            return     # between a lock operation and the next protected instruction CPython cannot deliver
        self.fired.append({"c": me, "op": op, "code": key, "off": off, "occ": n, "act": a})
        self.ev("act", me, op, key, off, n, a[0])
        if kind == "switch":
            k = self.pick(prefer=a[1])
            self.switches.append((me, op, key, off, k))
            self.give(k, me)
        elif kind == "raise":
            self.opdirs.setdefault((me, op), []).append(a[1])
            raise EXC[a[1]]("injected")
        elif kind in ("nest", "nestrd"):
            if me in self.nest_busy:
                return
            self.nest_busy.add(me)
            rec = {"c": me, "op": op, "act": a}
            try:
                try:
                    v = C.evaluate(a[1]) if kind == "nest" else OPS["rd"](self.world, ["rd"] + a[1:], {}, self, me)
                except BaseException as e:
                    v = [["!!", type(e).__name__, str(e)[:200]]]
                    if isinstance(e, seams.SimDeadlock):
                        self.nested.append(dict(rec, v=v))
                        raise
            finally:
                self.nest_busy.discard(me)
            self.nested.append(dict(rec, v=v))
        elif kind == "look":
            d = outside().look()
            if d:
                self.world.diffs.append({"c": me, "op": op, "at": [key, off, n], "diff": d})
        elif kind == "gc":
            gc.collect()
        elif kind == "clock":
            seams.CLOCK.advance(a[1])
            seams.CLOCK.jumps += 1

    # ---- client main loops
    def client(self, i, world, results):
        self.ident[_thread.get_ident()] = i
        self.locks[i].acquire()
        try:
            for j, op in enumerate(self.prog["clients"][i]):
                self.opi[i] = j
                self.begin(i, j)
                self.ev("inv", i, j)
                rec = {"c": i, "i": j, "op": op, "inv": self.seq}
                results.append(rec)
                if seams.HOOK is not self:
                    seams.HOOK = self
                run_op(world, op, rec, self, i)
                self.ev("ret", i, j)
                rec["ret"] = self.seq
                self.nth.pop((i, j), None)
                self.want[i] = None
                for ds in self.pending.values():
                    ds[:] = [d for d in ds if not (d["c"] == i and d["op"] <= j)]
                inj = self.opdirs.get((i, j))
                if inj:
                    rec["inj"] = list(inj)
                if self.in_child:
                    os._exit(99)
                k = self.pick()
                if k != i:
                    self.switches.append((i, j, "end", 0, k))
                    self.give(k, i)
        finally:
            self.state[i] = "done"
            self.ev("done", i)
            self.give(self.pick(), None)


def run_op(world, op, rec, sched, me):
    """Execute one operation, storing its outcome in rec."""
    kind = op[0]
    seams.SLEEPS[0] = 0
    try:
        rec["v"] = OPS[kind](world, op, rec, sched, me)
    except seams.SimDeadlock as e:
        rec["v"] = [["!!", "SimDeadlock", str(e)]]
    except BaseException as e:
        rec["v"] = [["!!", type(e).__name__, str(e)[:300]]]


class World:
    """What the program's operations can reach."""

    def __init__(self):
        self.slots = C.SLOTS = {}
        self.loot = {}
        self.ids = {}
        self.keep = []
        self.diffs = []


def outside():
    from . import outside as m
    return m


# ------------------------------------------------------------------ operations
OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


@op("q")
def _q(w, o, rec, sched, me):
    opts = o[2] if len(o) > 2 else None
    if opts and "rec" in opts:
        return _with_limit(opts["rec"], lambda: C.evaluate(o[1]))
    return C.evaluate(o[1])


def _depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def _with_limit(extra, fn):
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(_depth() + 12 + extra)
        try:
            return fn()
        finally:
            sys.setrecursionlimit(old)
    except RecursionError:
        sys.setrecursionlimit(old)
        return [["!", "RecursionError"]]


@op("unload")
def _unload(w, o, rec, sched, me):
    """the process has not imported the library yet; one of the files may turn out not to be readable"""
    seams.unload()
    C.CLS = C.Live()
    seams.LOADS[0] = 0
    if len(o) > 1:
        e = {"OSError": OSError(5, "Input/output error"), "MemoryError": MemoryError(), "EMFILE": OSError(24, "Too many open files"),
             "KeyboardInterrupt": KeyboardInterrupt()}[o[2]]
        seams.LOADS[1] = (o[1], e)
    return ["ok"]


@op("imp")
def _imp(w, o, rec, sched, me):
    """["imp", statement, names]: what the names are after an import statement"""
    ns = {}
    exec(o[1], ns)
    out = []
    for n in o[2]:
        x = ns[n] if n in ns else getattr(ns["lunar_python"], n)
        for i, y in enumerate(w.keep):
            if x is y:
                break
        else:
            i = len(w.keep)
            w.keep.append(x)
        out.append([n, "class" if isinstance(x, type) and x.__name__ == n else type(x).__name__, i])
    return out


@op("new")
def _new(w, o, rec, sched, me):
    """create shared object: ["new", slot, request, kind(, how)] - the object reached by the request's ctor and first path;
    how: "recv:N" made in another process and received from it, else like "copy" """
    q = o[2]
    how = o[4] if len(o) > 4 else None
    try:
        if how and how.startswith("recv"):
            r = companion.ask({"k": "make", "q": q, "proto": int(how[5:]), "read": o[5] if len(o) > 5 else []})
            if not r.startswith(b"P"):
                return [json.loads(r)]
            w.slots[o[1]] = pickle.loads(r[1:])
            return ["ok"]
        obj = C.build(q)
        if q.get("p"):
            obj = C.follow(obj, q["p"][0])
        w.slots[o[1]] = clone(obj, how) if how else obj
        return ["ok"]
    except Exception as e:
        return [C.canon_exc(e)]


@op("rd")
def _rd(w, o, rec, sched, me):
    """read paths on a shared object: ["rd", slot, paths]"""
    if o[1] not in w.slots:
        return ["noslot"]
    out = []
    for p in o[2]:
        try:
            out.append(C.canon(C.follow(w.slots[o[1]], p)))
        except Exception as e:
            out.append(C.canon_exc(e))
    return out


def clone(obj, how):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "shallow":
        return copy.copy(obj)
    return pickle.loads(pickle.dumps(obj, int(how[7:])))


@op("copy")
def _copy(w, o, rec, sched, me):
    """copy a shared object: ["copy", slot, how, newslot]; how: deepcopy or pickle:N"""
    if o[1] not in w.slots:
        return ["noslot"]
    w.slots[o[3]] = clone(w.slots[o[1]], o[2])
    return ["ok"]


@op("send")
def _send(w, o, rec, sched, me):
    """send a shared object to another process, which reads it: ["send", slot, paths, protocol]"""
    if o[1] not in w.slots:
        return ["noslot"]
    return json.loads(companion.ask({"k": "read", "paths": o[2]}, pickle.dumps(w.slots[o[1]], o[3])))


@op("together")
def _together(w, o, rec, sched, me):
    """a lunar date and its chart copied together: is the copied chart the copied date's?  ["together", slot, how]"""
    if o[1] not in w.slots:
        return ["noslot"]
    l = w.slots[o[1]]
    a, b = clone((l, l.getEightChar()), o[2])
    return [a.getEightChar() is b, a.getEightChar() is not l.getEightChar()]


@op("pick")
def _pick(w, o, rec, sched, me):
    """choose the school of a chart or of a lunar date's chart: ["pick", slot, s]"""
    if o[1] not in w.slots:
        return ["noslot"]
    x = w.slots[o[1]]
    (x if hasattr(x, "setSect") else x.getEightChar()).setSect(o[2])
    return ["ok"]


@op("ident")
def _ident(w, o, rec, sched, me):
    """like rd with one path, but reports object identity: ["ident", slot, path] -> index of distinct object"""
    v = C.follow(w.slots[o[1]], o[2])
    w.keep.append(v)
    return [w.ids.setdefault(id(v), len(w.ids))]


@op("sect")
def _sect(w, o, rec, sched, me):
    """choose the day-boundary school through the shared lunar date: ["sect", slot, s]"""
    C.follow(w.slots[o[1]], [["getEightChar"]]).setSect(o[2])
    return ["ok"]


@op("fix")
def _fix(w, o, rec, sched, me):
    names = o[1]
    if names is not None:
        names = tuple(names) if (len(o) <= 3 or o[3] != "list") else list(names)
    C.CLS["HolidayUtil"].fix(names, o[2])
    return ["ok"]


@op("fixnames")
def _fixnames(w, o, rec, sched, me):
    """correct, then keep changing the list that was passed in (the caller owns it)"""
    names = list(o[1])
    C.CLS["HolidayUtil"].fix(names, o[2])
    for i in range(len(names)):
        names[i] = "X%d" % i
    return ["ok"]


@op("clock")
def _clock(w, o, rec, sched, me):
    seams.CLOCK.advance(o[1])
    return ["ok"]


@op("clockset")
def _clockset(w, o, rec, sched, me):
    seams.CLOCK.advance(o[1] - seams.CLOCK.now)
    seams.CLOCK.jumps += 1
    return ["ok"]


@op("plan")
def _plan(w, o, rec, sched, me):
    """clock jumps relative to the readings made from now on: ["plan", {n: dt}]"""
    base = seams.CLOCK.reads
    for k, v in o[1].items():
        seams.CLOCK.plan[base + int(k)] = v
    return ["ok"]


@op("cq")
def _cq(w, o, rec, sched, me):
    """a request, recording the clock readings shown during it"""
    a = len(seams.CLOCK.log)
    rec["clk0"] = seams.CLOCK.now
    v = C.evaluate(o[1])
    rec["clk"] = seams.CLOCK.log[a:]
    return v


@op("gc")
def _gc(w, o, rec, sched, me):
    gc.collect()
    return ["ok"]


@op("watch")
def _watch(w, o, rec, sched, me):
    """from now on the rest of the process must stay as it is"""
    v = outside().begin()
    C.ARGLOG = []
    outside().ACTIVE[0] = True
    return v


@op("look")
def _look(w, o, rec, sched, me):
    """is the rest of the process as it was?  ["look"] during use, ["look", "end"] when every call has ended"""
    d = outside().look(True, len(o) > 1)
    log, C.ARGLOG = C.ARGLOG, None
    if d:
        w.diffs.append({"c": me, "diff": d})
    for a, was in log or ():
        now = C.canon(a)
        if now != was:
            w.diffs.append({"c": me, "diff": [["an argument", was, now]]})
    C.ARGLOG = []
    return ["ok"]


@op("fixarg")
def _fixarg(w, o, rec, sched, me):
    """a correction whose list of names the caller looks at again afterwards"""
    names = list(o[1])
    try:
        C.CLS["HolidayUtil"].fix(names, o[2])
    finally:
        if names != list(o[1]):
            w.diffs.append({"c": me, "diff": [["an argument", o[1], names]]})
    return ["ok"]


@op("seedrandom")
def _sr(w, o, rec, sched, me):
    random.seed(o[1])
    return ["ok"]


@op("rep")
def _rep(w, o, rec, sched, me):
    """the same request many times: ["rep", request, n]; reports the first answer and any that differs"""
    first = C.evaluate(o[1])
    for _ in range(o[2] - 1):
        v = C.evaluate(o[1])
        if v != first:
            return ["differs", first, v]
    return first


@op("flood")
def _flood(w, o, rec, sched, me):
    """many requests whose answers are not looked at: ["flood", [request...]]"""
    for q in o[1]:
        C.evaluate(q)
    return ["ok"]


@op("many")
def _many(w, o, rec, sched, me):
    """many requests, one after the other: ["many", [request...], collect] -> their answers; collect: unused objects are freed between them"""
    if len(o) < 3 or not o[2]:
        return [C.evaluate(q) for q in o[1]]
    gc.collect()
    gc.freeze()
    out = []
    for q in o[1]:
        out.append(C.evaluate(q))
        gc.collect()
    return out


@op("meter")
def _meter(w, o, rec, sched, me):
    """what a long history leaves behind: ["meter", shape, seed, n, mode] -> at each of three checkpoints n requests apart:
    memory blocks in use, bytes reachable from the library, instructions one more request takes"""
    _, shape, seed, n, mode = o
    out = []
    st = iter(C.stream(shape, seed)) if mode not in ("fix", "held", "reread") else None
    if mode == "same":
        # the same few requests, each time made anew
        few = [json.dumps(next(st)) for _ in range(3)]
        st = (json.loads(few[k % 3]) for k in itertools.count())
    probe = next(C.stream(shape, seed + 1)) if st is not None else None
    rng = random.Random("meter:%s:%s" % (shape, seed))
    held = None
    if mode == "reread":
        # every reading of one object, over and over
        q, paths = C.whole(shape, rng)
        held = C.build(q) if not q["p"] else C.follow(C.build(q), q["p"][0])

        def step(k):
            C.follow(held, json.loads(paths[k % len(paths)]))
    if mode == "held":
        held = C.build({"c": "Solar.fromYmdHms", "a": C.far(rng)})
        held = {"Solar": held, "Lunar": held.getLunar(), "SolarWeek": C.CLS["SolarWeek"].fromYmd(2020, 2, 3, 1), "SolarMonth": C.CLS["SolarMonth"].fromYm(2020, 3),
                "LunarYear": C.CLS["LunarYear"].fromYear(2020), "LunarMonth": C.CLS["LunarMonth"].fromYm(2020, 4), "SolarYear": C.CLS["SolarYear"].fromYear(2020),
                "SolarSeason": C.CLS["SolarSeason"].fromYm(2020, 4), "SolarHalfYear": C.CLS["SolarHalfYear"].fromYm(2020, 4),
                "Yun": held.getLunar().getEightChar().getYun(1)}[shape]
        # not in steps of one, lest stepping back and forth hide what is kept
        span = {"SolarYear": 5000, "LunarYear": 5000, "Yun": 4000}.get(shape, 40000)
        step = (lambda k: held.getDaYun(1 + k % 12)) if shape == "Yun" else (lambda k: held.next((k * 7919) % span - min(span // 2, 1900)))
        if shape == "Solar":
            far = step

            def step(k):
                return far(k) if k % 5 == 0 else held.next(k % 9 - 4, True) if k % 5 < 3 else held.nextMonth(k % 90 - 40) if k % 5 == 3 else held.nextHour(k % 300 - 150)
        elif shape == "SolarWeek":
            wide = step

            def step(k):
                return wide(k) if k % 2 else held.next(k % 9 - 4, True)
    days = ["2031%02d%02d" % (1 + k // 28, 1 + k % 28) for k in range(40)]

    def one(q):
        if mode == "short":
            try:
                _with_limit(rng.randint(1, 14), lambda: C.evaluate(q))
            except RecursionError:
                pass
        else:
            C.evaluate(q)
    steps = [0]

    def cb(code, off):
        steps[0] += 1
    gc.collect()
    out.append([sys.getallocatedblocks(), reachable(held), 0])      # so that measuring itself leaves no more behind later
    out.clear()
    for k in range(3):
        for j in range(n):
            if mode == "fix":
                d = rng.choice(days)
                C.CLS["HolidayUtil"].fix(["a%d" % (j % 7 + i) for i in range(9)] if j % 5 == 0 else None,
                                         d + rng.choice(("~0", "00", "11", "20")) + d + (rng.choice(days) + "30" + d if j % 3 == 0 else ""))
            elif mode in ("held", "reread"):
                try:
                    step(k * n + j)
                except Exception:
                    pass
            elif mode == "threads":
                done = seams.raw_lock()
                done.acquire()
                q = next(st)

                def body():
                    try:
                        one(q)
                    finally:
                        done.release()
                _thread.start_new_thread(body, ())
                done.acquire()
            elif mode == "named":
                # threads with an object of their own
                q = next(st)
                t = threading.Thread(target=one, args=(q,), name="caller-%d-%d" % (k, j))
                run_thread(t)
            else:
                one(next(st))
        if mode in ("threads", "named"):
            seams.real_sleep(0.05)
        gc.collect()
        blocks = sys.getallocatedblocks()
        steps[0] = 0
        if probe is not None:
            C.evaluate(probe)
            MON.register_callback(TOOL, EV.INSTRUCTION, cb)
            for co in CODES.values():
                MON.set_local_events(TOOL, co, EV.INSTRUCTION)
            C.evaluate(probe)
            for co in CODES.values():
                MON.set_local_events(TOOL, co, 0)
        out.append([blocks, reachable(held), steps[0]])
    rec["meter"] = out
    return out


def run_thread(t):
    """run a threading.Thread object's work in a real thread and wait for it (no simulated locks involved)"""
    done = seams.raw_lock()
    done.acquire()

    def body():
        ident = _thread.get_ident()
        threading._active[ident] = t
        try:
            t.run()
        finally:
            threading._active.pop(ident, None)
            done.release()
    _thread.start_new_thread(body, ())
    done.acquire()


def reachable(held=None):
    """bytes of everything reachable from the library's modules and classes (code aside), and from an object held"""
    import types
    seen = set()
    todo = [held]
    for m in seams.MODS.values():
        todo.append(vars(m))
    total = 0
    skip = (types.ModuleType, types.CodeType, types.FrameType)
    while todo:
        v = todo.pop()
        if id(v) in seen or isinstance(v, skip):
            continue
        seen.add(id(v))
        if isinstance(v, type):
            if not str(getattr(v, "__module__", "")).startswith("lunar_python"):
                continue
            todo += list(vars(v).values())
            continue
        if isinstance(v, types.FunctionType):
            if v.__globals__.get("__name__", "").startswith("lunar_python") or v.__closure__:
                todo += [v.__defaults__, v.__kwdefaults__, v.__dict__] + list(v.__closure__ or ())
            continue
        total += sys.getsizeof(v)
        if isinstance(v, (str, bytes, int, float)) or v is None:
            continue
        if isinstance(v, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)):
            continue
        todo += gc.get_referents(v)
        if len(seen) > 4000000:
            break
    return total


# --- the vandal: does whatever a caller may do with values it got
@op("vq")
def _vq(w, o, rec, sched, me):
    """request whose returned containers and records are then vandalised: ["vq", request, mode, when]"""
    loot = []
    v = C.evaluate(o[1], loot)
    w.loot.setdefault(me, []).append((loot, o[2]))
    if o[3] == "now":
        rec["wrecked"] = wreck(w, me)
    return v


@op("vrd")
def _vrd(w, o, rec, sched, me):
    """readings of a shared object whose containers and records are then vandalised: ["vrd", slot, paths, mode].
    Setters of the shared object itself, and of its chart, are its own business and not called."""
    if o[1] not in w.slots:
        return ["noslot"]
    obj = w.slots[o[1]]
    out, vals = [], []
    for p in o[2]:
        try:
            v = C.follow(obj, p)
            out.append(C.canon(v))
            vals.append(v)
        except Exception as e:
            out.append(C.canon_exc(e))
    n = 0
    for v in vals:
        n += vandal(v, o[3], 0, {id(obj): obj, "shared": True}, w)
    rec["wrecked"] = n
    return out


@op("wreck")
def _wreck(w, o, rec, sched, me):
    rec["wrecked"] = wreck(w, me)
    return ["ok"]


def wreck(w, me):
    n = 0
    for loot, mode in w.loot.pop(me, []):
        for v in loot:
            n += vandal(v, mode, 0, {}, w)
    return n


JUNK = "~junk~"


def vandal(v, mode, depth, seen, w):
    if id(v) in seen or depth > 5:
        return 0
    seen[id(v)] = v           # kept alive, so that ids stay unique
    n = 0
    if isinstance(v, list):
        items = list(v)
        for x in items[:40]:
            n += vandal(x, mode, depth + 1, seen, w)
        try:
            if mode == 0:
                v.clear()
            elif mode == 1:
                v.reverse()
            elif mode == 2:
                v.extend([JUNK] * 3)
            elif mode == 3:
                for i in range(len(v)):
                    v[i] = JUNK
            elif mode == 4 and v:
                v.pop(0)
            else:
                v.insert(0, JUNK)
            n += 1
        except Exception:
            pass
    elif isinstance(v, dict):
        for x in list(v.values())[:40]:
            n += vandal(x, mode, depth + 1, seen, w)
        try:
            if mode == 0:
                v.clear()
            elif mode in (1, 3):
                for k in list(v):
                    v[k] = JUNK
            else:
                v[JUNK] = JUNK
                if mode == 4 and v:
                    v.pop(next(iter(v)))
            n += 1
        except Exception:
            pass
    elif isinstance(v, (tuple, set, frozenset)):
        for x in list(v)[:40]:
            n += vandal(x, mode, depth + 1, seen, w)
        if isinstance(v, set):
            v.clear()
            n += 1
    else:
        cn = type(v).__name__
        # records: their setters
        for m in sorted(dir(type(v))):
            if not m.startswith("set") or m.startswith("__"):
                continue
            f = getattr(v, m, None)
            if not callable(f) or (cn == "EightChar" and "shared" in seen):
                continue
            arg = {"setSect": 1 if mode % 2 else 2, "setIndex": 77, "setWork": mode % 2 == 0, "setDay": "1999-09-09",
                   "setTarget": "1999-09-09", "setSolar": None}.get(m, JUNK)
            if m == "setSolar":
                arg = C.CLS["Solar"].fromYmd(1999, 9, 9)
            try:
                f(arg)
                n += 1
            except Exception:
                pass
        count = seen.setdefault("classes", {})
        count[cn] = count.get(cn, 0) + 1
        if cn in C.SUMMARY and depth < 3 and count[cn] <= 2:
            # containers reachable through the object's own readers
            for m in VANDAL_READS.get(cn, ()):
                try:
                    n += vandal(getattr(v, m)(), mode, depth + 1, seen, w)
                except Exception:
                    pass
    return n


VANDAL_READS = {}


def init_vandal():
    """readers that return containers or records, found by class (computed once per worker, in a fork)"""
    return {c: list(g) for c, g in C.GETTERS.items()}


# --- fork
@op("fork")
def _fork(w, o, rec, sched, me):
    """["fork", [request or correction...]]: the child answers the requests, all other callers having vanished"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if sched is not None:
                sched.in_child = True
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(300)
            out = []
            for q in o[1]:
                seams.SLEEPS[0] = 0
                try:
                    out.append(C.evaluate(q) if isinstance(q, dict) else OPS[q[0]](w, q, {}, sched, me))
                except BaseException as e:
                    out.append([["!!", type(e).__name__, str(e)[:200]]])
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    data = read_all(r, 25, pid, 20)
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    rec["child"] = True
    if not data:
        return [["!!", "ChildHang", "the forked child did not answer"]]
    return json.loads(data)


def cpu_of(pid):
    """CPU seconds the process has used, or None"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / 100.0
    except (OSError, IndexError, ValueError):
        return None


def read_all(fd, timeout, pid, idle):
    """All the child writes; b"" if it hangs: it has used `timeout` CPU seconds, or none at all for `idle` seconds.
    (CPU time, so that a busy machine is not mistaken for a hang.)"""
    out = []
    start = moved = seams.real_perf()
    last = -1.0
    while True:
        rl, _, _ = select.select([fd], [], [], 0.5)
        if rl:
            b = os.read(fd, 1 << 16)
            if not b:
                return b"".join(out)
            out.append(b)
            moved = seams.real_perf()
            continue
        now = seams.real_perf()
        c = cpu_of(pid)
        if c is None:
            c = now - start
        if c > timeout or now - start > 10 * timeout:
            return b""
        if c - last >= 0.02:
            last, moved = c, now
        elif now - moved > idle:
            return b""


# ------------------------------------------------------------------ one run
def execute(prog):
    """Run the program in this process (call in a fresh fork). Returns the outcome (JSON-able)."""
    env = prog.get("env") or {}
    seams.CLOCK.reset(env.get("clock"), {int(k): v for k, v in (env.get("plan") or {}).items()}, env.get("step", 0.0))
    gc.disable()
    if "random" in env:
        random.seed(env["random"])
    if env.get("cwd"):
        os.chdir(env["cwd"])
    w = World()
    sched = Sched(prog)
    sched.world = w
    out = {"setup": [], "hist": [], "final": []}
    for n, o in enumerate(prog.get("setup") or []):
        rec = {"c": -1, "i": n, "op": o}
        run_op(w, o, rec, None, -1)
        out["setup"].append(rec)
    if prog["clients"]:
        keys = set(d["code"] for d in prog.get("dirs") or [] if "code" in d)
        if prog.get("walk"):
            keys |= set(prog["walk"]["codes"])
        keys |= set(prog.get("watch") or [])
        mon = [CODES[k] for k in sorted(CODES if prog.get("all") else keys) if k in CODES]
        seams.HOOK = sched
        if mon:
            MON.register_callback(TOOL, EV.INSTRUCTION, sched.on_count if prog.get("all") else sched.on_instr)
            for co in mon:
                MON.set_local_events(TOOL, co, EV.INSTRUCTION)
        for i in range(sched.n):
            _thread.start_new_thread(sched.client, (i, w, out["hist"]))
        while len(sched.ident) < sched.n:
            seams.real_sleep(0)
        k = sched.pick()
        sched.cur = k
        sched.locks[k].release()
        sched.main.acquire()
        if mon:
            for co in mon:
                MON.set_local_events(TOOL, co, 0)
        seams.HOOK = None
    seams.LOADS[1] = None
    for n, o in enumerate(prog.get("final") or []):
        rec = {"c": -2, "i": n, "op": o}
        run_op(w, o, rec, None, -2)
        out["final"].append(rec)
    if w.diffs:
        out["outside"] = w.diffs[:20]
    out["fired"] = sched.fired
    out["nested"] = sched.nested
    out["deadlock"] = sched.deadlock
    out["steps"] = sched.steps
    out["switches"] = len(sched.switches)
    out["inter"] = hashlib.sha256(repr(sched.switches).encode()).hexdigest()[:16]
    out["simtime"] = seams.CLOCK.covered
    out["clockreads"] = seams.CLOCK.reads
    out["clockjumps"] = seams.CLOCK.jumps
    out["locks"] = dict(seams.LOCK_OPS)
    out["loghash"] = hashlib.sha256(repr(sched.log).encode()).hexdigest()[:16]
    return out


def in_fork(fn, timeout=60):
    """Run fn() in a fork of this (pristine) process; returns its JSON-able result, or None on hang/crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                v = {"ok": fn()}
            except BaseException as e:
                import traceback
                v = {"err": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
            data = json.dumps(v).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = read_all(r, timeout, pid, 45)
    os.close(r)
    if not data:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    if not data:
        return {"hang": True}
    return json.loads(data)


def run(prog, timeout=60):
    return in_fork(lambda: execute(prog), timeout)


class Refs:
    """Reference answers: the same request as the only call of a fresh process."""

    def __init__(self, env=None):
        self.cache = {}
        self.soft = {}
        self.env = env or {}
        self.n = 0
        self.bad = 0

    def prefetch(self, c, a, paths):
        """many readings of one thing, answered in one fresh process: provisional answers (judges ask again, one by one, before
        they report anything)"""
        if len(self.soft) > 20000:
            self.soft.clear()
        todo = []
        for p in paths:
            k = C.key({"c": c, "a": a, "p": [p]})
            if k not in self.cache and k not in self.soft and p not in todo:
                todo.append(p)
        if todo:
            vs = self.fresh({"c": c, "a": a, "p": todo}) or ()
            for p, v in zip(todo, vs if len(vs) == len(todo) else ()):
                self.soft[C.key({"c": c, "a": a, "p": [p]})] = [v]

    def fresh(self, q):
        r = in_fork(lambda: self.alone(q), 40)
        return r.get("ok")

    def alone(self, q):
        seams.CLOCK.reset(self.env.get("clock"))
        try:
            return C.evaluate(q)
        except seams.SimDeadlock as e:
            return [["!!", "SimDeadlock", str(e)]]
        except BaseException as e:
            return [["!!", type(e).__name__, str(e)[:200]]]

    def get(self, q):
        k = C.key(q)
        if k in self.soft:
            return self.soft[k]
        if k not in self.cache:
            if len(self.cache) > 20000:
                self.cache.clear()
            self.n += 1

            self.cache[k] = self.fresh(q)
            if self.cache[k] is None:
                self.bad += 1
        return self.cache[k]


class Reach:
    """Which instructions a request (or op after setup) reaches, measured alone from cold."""

    def __init__(self, cap=40):
        self.cache = {}
        self.marks = {}
        self.cap = cap

    def of_op(self, setup, o):
        k = json.dumps([setup, o], sort_keys=True)
        if k in self.cache:
            return self.cache[k]
        if len(self.cache) > 3000:
            self.cache.clear()
            self.marks.clear()
        cap = self.cap

        def f():
            seams.CLOCK.reset()
            w = World()
            for s in setup:
                run_op(w, s, {}, None, -1)
            counts = {}
            marks = {}
            shared = containers(w)
            changes = {co: info(kk).changes for co, kk in KEYOF.items() if info(kk).changes}

            def cb(code, off):
                kk = KEYOF.get(code)
                if kk is None:
                    return MON.DISABLE
                d = counts.setdefault(kk, {})
                n = d.get(off, 0) + 1
                d[off] = n
                if off in changes.get(code, ()):
                    name, offs = changes[code][off]
                    loc = sys._getframe(1).f_locals
                    if name == "" or any(id(v) in shared for v in ([loc.get(name)] if name else loc.values())):
                        marks.setdefault(kk, set()).update(offs)
                if n >= cap:
                    return MON.DISABLE
            MON.register_callback(TOOL, EV.INSTRUCTION, cb)
            for co in CODES.values():
                MON.set_local_events(TOOL, co, EV.INSTRUCTION)
            run_op(w, o, {}, None, 0)
            for co in CODES.values():
                MON.set_local_events(TOOL, co, 0)
            return {kk: sorted(d.items()) for kk, d in counts.items()}, {kk: sorted(m) for kk, m in marks.items()}
        r = in_fork(f, 60)
        self.cache[k], self.marks[k] = r.get("ok") or ({}, {})
        return self.cache[k]

    def marked(self, setup, o):
        """instructions of the operation at which a container shared between calls is about to be, or has just been, changed"""
        self.of_op(setup, o)
        return self.marks.get(json.dumps([setup, o], sort_keys=True)) or {}

    def counts(self, setup, ops, limit):
        """how many library instructions each of these operations executes, one after the other, after setup; the list ends
        where the limit is passed"""
        k = "n" + json.dumps([setup, ops], sort_keys=True)
        if k in self.cache:
            return self.cache[k]
        if len(self.cache) > 3000:
            self.cache.clear()

        def f():
            seams.CLOCK.reset()
            gc.disable()
            w = World()
            for s in setup:
                run_op(w, s, {}, None, -1)
            n = [0]

            def cb(code, off):
                n[0] += 1
            MON.register_callback(TOOL, EV.INSTRUCTION, cb)
            for co in CODES.values():
                MON.set_local_events(TOOL, co, EV.INSTRUCTION)
            out = []
            for o in ops:
                n[0] = 0
                run_op(w, o, {}, None, 0)
                out.append(n[0])
                if sum(out) > limit:
                    break
            return out
        self.cache[k] = in_fork(f, 60).get("ok") or []
        return self.cache[k]


# ------------------------------------------------------------------ where shared state is touched
def spaces(w):
    """the namespaces of the library's modules and classes and of the shared objects, and the containers they hold, as
    (namespace or container, name it goes by)"""
    out = []
    seen = set()
    todo = [(vars(m), "") for m in seams.MODS.values()] + [(v, k) for k, v in w.slots.items()]
    while todo and len(seen) < 50000:
        v, name = todo.pop()
        if v is None or isinstance(v, (str, int, float, bytes)) or id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            out.append((v, name))
            todo += [(x, name or k if isinstance(k, str) else name) for k, x in list(v.items())]
        elif isinstance(v, (list, set, tuple)) or type(v).__name__ == "deque":
            if not isinstance(v, tuple):
                out.append((v, name))
            todo += [(x, name) for x in v]
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith("lunar_python"):
                out.append((vars(v), ""))
                todo += [(x, k) for k, x in vars(v).items()]
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append((v.__func__, name))
        elif isinstance(v, type(containers)):
            if getattr(v, "__module__", "").startswith("lunar_python"):
                todo += [(x, v.__name__) for x in list(v.__defaults__ or ()) + [getattr(v, "__wrapped__", None)]]
                todo += [(c.cell_contents, n) for n, c in zip(v.__code__.co_freevars, v.__closure__ or ()) if _filled(c)]
        elif type(v).__module__.startswith("lunar_python") and getattr(v, "__dict__", None) is not None:
            out.append((v.__dict__, ""))
            todo += [(x, k) for k, x in v.__dict__.items()]
    return out


def look(sp):
    """what the spaces hold, shallowly"""
    out = []
    for v, _ in sp:
        try:
            if len(v) > 300:
                out.append(len(v))
            elif isinstance(v, (list, set)):
                out.append(tuple(map(id, v)))
            else:
                out.append({k: id(x) for k, x in v.items()} if hasattr(v, "items") else tuple(map(id, v)))
        except RuntimeError:
            out.append(None)
    return out


def containers(w):
    """ids of the mutable containers reachable from the library's classes, modules and shared objects"""
    out = {}
    todo = [vars(m) for m in seams.MODS.values()] + [w.slots]
    seen = set()
    while todo and len(seen) < 50000:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (list, set, dict)) or type(v).__name__ in ("deque", "OrderedDict", "defaultdict"):
            out[id(v)] = v
        if isinstance(v, dict):
            todo += [x for x in list(v.values()) if not isinstance(x, (str, int, float))]
        elif isinstance(v, (list, tuple)):
            todo += [x for x in v if not isinstance(x, (str, int, float))]
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith("lunar_python"):
                todo += list(vars(v).values())
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, type(containers)):
            if getattr(v, "__module__", "").startswith("lunar_python"):
                todo += list(v.__defaults__ or ()) + [c.cell_contents for c in v.__closure__ or () if _filled(c)] + [getattr(v, "__wrapped__", None)]
        elif type(v).__module__.startswith("lunar_python"):
            out[id(v)] = v
            todo.append(getattr(v, "__dict__", None))
    return out


def _filled(cell):
    try:
        cell.cell_contents
        return True
    except ValueError:
        return False


def lru_names():
    """names of the library's functions whose results are kept by functools"""
    out = set()
    for m in seams.MODS.values():
        for k, v in list(vars(m).items()):
            for a, x in [(k, v)] + (list(vars(v).items()) if isinstance(v, type) else []):
                x = getattr(x, "__func__", x)
                if callable(getattr(x, "cache_info", None)):
                    out.add(a)
    return out


def survey(setup, ops):
    """Where these operations, made one after the other, change what is shared between calls: {code: operations that reach
    it}, and the names under which the changed things go"""
    def f():
        seams.CLOCK.reset()
        gc.disable()
        w = World()
        for s in setup:
            run_op(w, s, {}, None, -1)
        changes = {co: info(kk).changes for co, kk in KEYOF.items() if info(kk).changes}
        lru = lru_names()
        found = {KEYOF[co] for co in CODES.values() if lru & set(co.co_names)}
        reached = {}
        now = []
        names = {}
        shared = {}

        def cb(code, off):
            c = changes[code].get(off)
            if c is None:
                return MON.DISABLE
            name = c[0]
            loc = sys._getframe(1).f_locals
            if name == "" or any(id(v) in shared for v in ([loc.get(name)] if name else loc.values())):
                found.add(KEYOF[code])

        def start(code, off):
            now.append(KEYOF[code])
            return MON.DISABLE
        MON.register_callback(TOOL, EV.INSTRUCTION, cb)
        MON.register_callback(TOOL, EV.PY_START, start)
        for co in CODES.values():
            MON.set_local_events(TOOL, co, EV.PY_START | (EV.INSTRUCTION if co in changes else 0))
        sp = a = None
        for n, o in enumerate(ops):
            if n % 25 == 0:
                shared.clear()
                shared.update(containers(w))
                sp = spaces(w)
                a = look(sp)
            del now[:]
            MON.restart_events()
            run_op(w, o, {}, None, 0)
            for k in now:
                reached.setdefault(k, set()).add(n)
            b = look(sp)
            if a != b:
                for (v, name), x, y in zip(sp, a, b):
                    if x != y:
                        ks = [name] if name or not isinstance(x, dict) or not isinstance(y, dict) else [k for k in set(x) | set(y) if x.get(k) != y.get(k)]
                        for k in ks:
                            names.setdefault(k, set()).update(now)
                a = b
        for co in CODES.values():
            MON.set_local_events(TOOL, co, 0)
        for nm, ks in names.items():
            found |= {k for k in ks if nm in info(k).names or nm == CODES[k].co_name}
        return {k: sorted(reached[k]) for k in sorted(found) if k in reached}, sorted(map(str, names))
    r = in_fork(f, 120)
    return r.get("ok") or ({}, [])


def _snap(v, memo, depth=0):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v if not isinstance(v, str) or len(v) < 200 else hash(v)
    if id(v) in memo or depth > 6:
        return ("seen",)
    memo[id(v)] = v
    if isinstance(v, (list, tuple, set, frozenset)):
        it = list(v) if not isinstance(v, (set, frozenset)) else sorted(map(repr, v))
        return (type(v).__name__, len(it)) + tuple(_snap(x, memo, depth + 1) for x in it[:2000])
    if isinstance(v, dict):
        return ("dict", len(v)) + tuple((repr(k)[:80], _snap(x, memo, depth + 1)) for k, x in list(v.items())[:2000])
    ci = getattr(v, "cache_info", None)
    if callable(ci):
        try:
            return ("lru", tuple(ci()))
        except Exception:
            pass
    if isinstance(v, (staticmethod, classmethod)):
        return _snap(v.__func__, memo, depth)
    import types
    if isinstance(v, types.FunctionType):
        cells = []
        for c in v.__closure__ or ():
            try:
                cells.append(_snap(c.cell_contents, memo, depth + 1))
            except ValueError:
                cells.append("empty")
        return ("fn", _snap(v.__defaults__, memo, depth + 1), _snap(v.__kwdefaults__, memo, depth + 1), tuple(cells),
                _snap(dict(v.__dict__), memo, depth + 1))
    if isinstance(v, type):
        return ("type", v.__name__)
    d = getattr(v, "__dict__", None)
    if isinstance(d, dict):
        return ("obj", type(v).__name__, id(v)) + tuple((k, _snap(x, memo, depth + 1)) for k, x in d.items())
    return ("x", type(v).__name__)


def snapshot():
    out = {}
    for mn, m in seams.MODS.items():
        for k, v in list(vars(m).items()):
            if isinstance(v, type):
                if getattr(v, "__module__", "").startswith("lunar_python"):
                    for a, x in list(vars(v).items()):
                        if a in ("__dict__", "__weakref__", "__doc__", "__module__"):
                            continue
                        out["%s.%s" % (v.__name__, a)] = _snap(x, {})
            elif k.startswith("__") or (hasattr(v, "__name__") and hasattr(v, "__path__")) or type(v).__name__ == "module":
                continue
            else:
                out["%s:%s" % (mn, k)] = _snap(v, {})
    return out


def hot_codes(queries, extra_ops=()):
    """Code objects that touch state shared between calls: attributes of classes and modules that
    change while requests run, and attributes objects get after construction."""
    def f():
        seams.CLOCK.reset()
        a = snapshot()
        w = World()
        for q in queries:
            run_op(w, ["q", q], {}, None, -1)
        for o in extra_ops:
            run_op(w, o, {}, None, -1)
        b = snapshot()
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    r = in_fork(f, 120)
    changed = r.get("ok") or []
    names = set()
    for key in CODES:
        names |= info(key).stored
    fns = set()
    for k in changed:
        nm = k.replace(":", ".").split(".")[-1]
        names.add(nm)
        fns.add(nm)
    hot = set()
    lazy = set()
    for key, co in CODES.items():
        ci = info(key)
        if names & ci.names or co.co_name in fns:
            hot.add(key)
        if co.co_name not in ("__init__",) and not co.co_name.startswith("set"):
            for i in dis.get_instructions(co):
                if i.opname in ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "STORE_DEREF"):
                    lazy.add((key, i.argval))
    hot |= {k for k, _ in lazy}
    return sorted(hot), changed, sorted({n for _, n in lazy}), names
