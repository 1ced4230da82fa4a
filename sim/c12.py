"""C12: the same requests in a canonical environment and in perturbed ones.

A worker keeps one canonical interpreter and, per batch, starts perturbed interpreters (hash
seed, optimisation level, zone, locale, environment variables, clock at import time).  Every
group of requests is evaluated in a fork of each, under its own plan (clock, clock jumps at the
n-th reading, directory, random state, collections, zone and locale changes between requests).
"""
import sys
import os
import json
import copy
import random
import hashlib
import select
import subprocess
import tempfile
import calendar

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

TZS = ("Asia/Shanghai", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kolkata", "Pacific/Kiritimati",
       "Europe/London", "Africa/Monrovia", "CST-8", "EST5EDT", "XXX+23:59", "YYY-23:59:59")
LOCALES = ("C", "C.UTF-8", "POSIX", "zh_CN.UTF-8", "tr_TR.UTF-8", "en_US.UTF-8", "zh_TW.UTF-8", "ja_JP.UTF-8", "de_DE.UTF-8", "en_GB")
ROUNDINGS = ("ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_05UP")
# moments near daylight-saving changes and zone jumps of the zones above
DST = [[2020, 3, 8, 2, 30, 0], [2021, 11, 7, 1, 30, 0], [2011, 12, 30, 12, 0, 0], [1986, 5, 4, 0, 30, 0], [1991, 9, 15, 0, 30, 0],
       [1927, 12, 31, 23, 55, 0], [2023, 4, 2, 1, 45, 0], [1940, 6, 1, 0, 30, 0], [2019, 3, 31, 1, 30, 0], [1972, 1, 7, 0, 20, 0],
       [1901, 1, 1, 0, 0, 30], [1988, 4, 10, 0, 10, 0]]

CANON = {"hash": "0", "opt": "", "vars": {"TZ": "UTC", "LC_ALL": "C.UTF-8"}, "utf8": "", "clock": None}
PLAIN = {"cwd": "/"}


# ------------------------------------------------------------------ the interpreter under test
def child():
    env = json.loads(sys.argv[2])
    from sim import seams, catalog as C, engine as E
    import gc
    import time
    seams.install()
    seams.CLOCK.reset(env.get("clock"))
    C.bind(seams.load())
    seams.CLOCK.reset()
    out = os.fdopen(os.dup(1), "wb", 0)

    def evaluate(job):
        p = job["plan"]
        if p.get("cwd") == "deleted":
            d = tempfile.mkdtemp()
            os.chdir(d)
            os.rmdir(d)
        elif p.get("cwd"):
            os.chdir(p["cwd"])
        gc.disable()
        if p.get("gc") == "on":
            gc.enable()
            gc.set_threshold(p.get("gcn", 50), 2, 2)
        if "random" in p:
            random.seed(p["random"])
        seams.CLOCK.reset(p.get("clock"), {int(k): v for k, v in (p.get("jumps") or {}).items()}, p.get("step", 0.0))
        if p.get("locale"):
            import locale
            try:
                locale.setlocale(locale.LC_ALL, p["locale"])
            except locale.Error:
                pass
        if p.get("decimal"):
            import decimal
            decimal.getcontext().prec, decimal.getcontext().rounding = p["decimal"]
            decimal.DefaultContext.prec, decimal.DefaultContext.rounding = p["decimal"]
        if p.get("warn"):
            import warnings
            warnings.simplefilter(p["warn"])
        if "argv" in p:
            sys.argv[:] = p["argv"]
        if p.get("umask"):
            os.umask(p["umask"])
        if p.get("digits"):
            sys.set_int_max_str_digits(p["digits"])
        for k, v in (p.get("environ") or {}).items():
            os.environ[k] = v
        if p.get("streams") == "none":
            sys.stdout = sys.stderr = sys.stdin = None
        elif p.get("streams") == "ascii":
            import io
            sys.stdout = sys.stderr = io.TextIOWrapper(io.BytesIO(), "ascii", "strict")
        if p.get("thread"):
            return elsewhere(lambda: answer(job, p))
        return answer(job, p)

    def elsewhere(f):
        """f() in a thread that is not the main one (a bare one: the locks of threading are the simulated ones)"""
        import _thread
        got = []
        r, w = os.pipe()

        def run():
            try:
                got.append(f())
            finally:
                os.write(w, b"x")
        _thread.start_new_thread(run, ())
        os.read(r, 1)
        return got[0]

    def answer(job, p):
        answers = []
        for i, q in enumerate(job["group"]):
            if p.get("tzmid") and i == p["tzmid"][0]:
                os.environ["TZ"] = p["tzmid"][1]
                time.tzset()
            for at, dt in p.get("advance") or []:
                if at == i:
                    seams.CLOCK.advance(dt)
            if p.get("gc") == "between":
                gc.collect()
            if p.get("reseed"):
                random.seed(p["reseed"] + i)
            seams.SLEEPS[0] = 0
            try:
                answers.append(C.evaluate(q))
            except seams.SimDeadlock as e:
                answers.append([["!!", "SimDeadlock", str(e)]])
            except BaseException as e:
                answers.append([["!!", type(e).__name__, str(e)[:200]]])
        return {"a": answers, "reads": seams.CLOCK.reads, "jumps": seams.CLOCK.jumps, "cov": seams.CLOCK.covered}
    for line in sys.stdin:
        job = json.loads(line)
        r = E.in_fork(lambda: evaluate(job), 50)
        out.write((json.dumps(r) + "\n").encode("ascii"))


def still():
    """no address space randomisation, so that where objects lie repeats too"""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Interp:
    def __init__(self, env):
        self.env = env
        e = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": env["hash"], "VERIF_REPO": os.environ.get("VERIF_REPO", "/repo")}
        if env.get("utf8"):
            e["PYTHONUTF8"] = env["utf8"]
        e.update(env["vars"])
        cmd = [sys.executable, "-B"] + ([env["opt"]] if env["opt"] else []) + [os.path.abspath(__file__), "--child", json.dumps(env)]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd="/", preexec_fn=still)
        self.buf = b""

    def ask(self, group, plan, timeout=60):
        from sim import seams
        try:
            self.p.stdin.write((json.dumps({"group": group, "plan": plan}) + "\n").encode("ascii"))
            self.p.stdin.flush()
        except OSError:
            return {"err": "interpreter gone: " + self.stderr()}
        end = seams.real_perf() + timeout
        while b"\n" not in self.buf:
            left = end - seams.real_perf()
            if left <= 0:
                return {"hang": True}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return {"hang": True}
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                return {"err": "interpreter gone: " + self.stderr()}
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(line)
        return r.get("ok") or r

    def stderr(self):
        try:
            self.p.kill()
            return self.p.stderr.read()[-1500:].decode("utf-8", "replace")
        except Exception:
            return "?"

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()
        self.p.stderr.close()


# ------------------------------------------------------------------ generation
def ts_of(y, m, d, h=0, mi=0, s=0):
    try:
        return calendar.timegm((y, m, min(d, 28), h, mi, s, 0, 0, 0))
    except (ValueError, OverflowError):
        return 0


def rnd_ts(rng, moments):
    r = rng.random()
    if r < 0.35 and moments:
        y, m, d, h, mi, s = rng.choice(moments)
        if 1 <= y <= 9998:
            return ts_of(y, m, d, h, mi, s) + rng.choice((0, 0, -1, 1, 60, -3600, 86400, -28800))
    if r < 0.55:
        y = rng.choice((1970, 1999, 2000, 2019, 2023, 2024, 2025, 2026, 2033, 2037, 2038, 2100))
        return ts_of(y, 1, 1) + rng.choice((-1, 0, 1, -28800, 28800, 86400 * 33, 86400 * 59, 86399))
    if r < 0.65:
        return ts_of(2024, 2, 28) + 86400 + rng.randint(0, 86399)
    if r < 0.75:
        return rng.choice((0, -1, -86400 * 365 * 40, 2 ** 31 - 1, 2 ** 31, ts_of(9998, 12, 28), ts_of(1, 6, 1), ts_of(1582, 10, 10)))
    return ts_of(rng.randint(1902, 2200), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def rnd_interp(rng):
    v = {"TZ": rng.choice(TZS)}
    v[rng.choice(("LC_ALL", "LANG", "LC_TIME"))] = rng.choice(LOCALES)
    for k in ("LC_ALL", "LANG", "LC_TIME", "LC_CTYPE", "LC_MESSAGES", "LC_NUMERIC", "LC_COLLATE"):
        if rng.random() < 0.4:
            v.setdefault(k, rng.choice(LOCALES))
    if rng.random() < 0.3:
        v["LANGUAGE"] = rng.choice(("zh", "en", "ja"))
    for k, u in (("PYTHONDEVMODE", "1"), ("PYTHONMALLOC", "debug"), ("CI", "true"), ("LUNAR_DEBUG", "1"), ("LUNAR_LANG", "en"),
                 ("SOURCE_DATE_EPOCH", "0"), ("NO_COLOR", "1"), ("COLUMNS", "10"), ("USER", "nobody"), ("PYTHONINTMAXSTRDIGITS", "640")):
        if rng.random() < 0.06:
            v[k] = u
    if rng.random() < 0.3:
        v["HOME"] = rng.choice(("/nonexistent", "/tmp"))
    if rng.random() < 0.2:
        v["DEBUG"] = "1"
    return {"hash": str(rng.randint(1, 4294967295)), "opt": rng.choice(("", "-O", "-OO")), "vars": v, "utf8": rng.choice(("", "0", "1")),
            "clock": rnd_ts(rng, [])}


def rnd_plan(rng, moments, bazi, n):
    p = {}
    if bazi:
        base = ts_of(2024, rng.randint(2, 11), rng.randint(2, 27), rng.randint(0, 23), rng.randint(0, 59))
        p["clock"] = base
        if rng.random() < 0.5:
            p["jumps"] = {str(rng.randint(0, 6)): rng.choice((1, -1, 60, -3600, 43200, 86400))}
    else:
        p["clock"] = rnd_ts(rng, moments)
        if rng.random() < 0.6:
            p["jumps"] = {str(rng.choice((0, 1, 1, 2, 3))): rng.choice((86400, -86400, 31622400, -31622400, 1, -3600, 10 ** 9))
                          for _ in range(rng.randint(1, 3))}
        if rng.random() < 0.4:
            p["advance"] = [[rng.randint(0, n - 1), rng.choice((1, 3600, 86400, 86400 * 366, -86400 * 366))]]
        if rng.random() < 0.3:
            p["step"] = rng.choice((1, 3600, 86400, 86400 * 200))
    p["random"] = rng.randint(1, 10 ** 6)
    if rng.random() < 0.3:
        p["reseed"] = rng.randint(1, 10 ** 6)
    p["cwd"] = rng.choice(("/", "/tmp", "/repo", "/usr", "deleted"))
    p["gc"] = rng.choice(("off", "on", "between", "between"))
    p["gcn"] = rng.choice((1, 20, 100))
    if rng.random() < 0.4:
        p["locale"] = rng.choice(LOCALES)
    if rng.random() < 0.5:
        p["decimal"] = [rng.choice((1, 2, 3, 5, 9, 28, 28, 28, 60)), rng.choice(ROUNDINGS)]
    if rng.random() < 0.3:
        p["warn"] = rng.choice(("error", "ignore", "always"))
    if rng.random() < 0.3:
        p["argv"] = rng.choice(([], [""], ["-c"], ["manage.py", "test"], ["pytest", "-x"]))
    if rng.random() < 0.2:
        p["umask"] = rng.choice((0, 0o77, 0o777))
    if rng.random() < 0.2:
        p["digits"] = rng.choice((640, 0))
    if rng.random() < 0.3:
        p["environ"] = {k: rng.choice(LOCALES) for k in ("LC_ALL", "LANG", "LC_TIME", "LANGUAGE") if rng.random() < 0.6}
    if rng.random() < 0.3:
        p["streams"] = rng.choice(("none", "ascii"))
    if rng.random() < 0.3:
        p["thread"] = 1
    if rng.random() < 0.4:
        p["tzmid"] = [rng.randint(0, n - 1), rng.choice(TZS)]
    return p


def rnd_group(rng, C):
    """-> (requests, moments, has reverse lookup)"""
    r = rng.random()
    if r < 0.10:
        # list-valued and reverse lookups
        g = []
        for _ in range(rng.randint(1, 2)):
            g.append(C.gen_query(rng, C.rnd_moment(rng), ("bazi",), 1))
        return g, [], True
    if r < 0.18:
        # many readings of similar objects
        g = C.panorama(rng, None, rng.choice((2, 3, 5)))
        return g, [q["a"] for q in g if q["c"] == "Solar.fromYmdHms"][:2], False
    kinds = [k for k in C.KINDS if k != "bazi"]
    if r < 0.30:
        t = list(rng.choice(DST))
        kinds = ["solar", "arith", "cmp", "cmp", "s2l", "date", "date", "jd", "eight", "yun", "week"]
    elif r < 0.40:
        t = C.rnd_moment(rng)
        kinds = ["bad"]
    else:
        t = C.rnd_moment(rng)
    fams = [t]
    g = [C.gen_query(rng, rng.choice(fams), kinds, None) for _ in range(rng.randint(1, 3))]
    moments = []
    for q in g:
        a = q["a"]
        if len(a) >= 3 and all(isinstance(x, int) for x in a[:3]) and 1 <= a[0] <= 9990 and 1 <= abs(a[1]) <= 12:
            moments.append([a[0], abs(a[1]), max(1, a[2])] + ([x for x in a[3:6]] if len(a) >= 6 and all(isinstance(x, int) and 0 <= x < 60 for x in a[3:6]) else [rng.randint(0, 23), 0, 0]))
    # the clock may show the very year, month or day a request is about
    if moments and rng.random() < 0.3:
        m = list(moments[0])
        m[0] = rng.choice((m[0] + 1, m[0] + 60, 2024))
        moments.append(m)
    return g, moments, False


# ------------------------------------------------------------------ judging
def diff(a, b):
    """a: canonical, b: perturbed"""
    if ("hang" in a) != ("hang" in b):
        return "does not answer in one of the environments"
    if "a" not in a or "a" not in b:
        return None
    for i, (x, y) in enumerate(zip(a["a"], b["a"])):
        if x != y:
            return [i, x, y]
    return None


def run_pair(group, ea, pa, eb, pb):
    A, B = Interp(ea), Interp(eb)
    try:
        return A.ask(group, pa), B.ask(group, pb)
    finally:
        A.close()
        B.close()


def minimise(prog, limit=45):
    """fewer requests, fewer readings, fewer differences between the environments"""
    tries = [0]

    def bad(p):
        tries[0] += 1
        a, b = run_pair(p["group"], p["envA"], p["planA"], p["envB"], p["planB"])
        return diff(a, b) is not None
    cur = prog
    progress = True
    while progress and tries[0] < limit:
        progress = False
        cands = []
        for i in range(len(cur["group"])):
            if len(cur["group"]) > 1:
                q = copy.deepcopy(cur)
                del q["group"][i]
                cands.append(q)
        for k in list(cur["planB"]):
            if k != "clock" or cur["planB"].get("clock") is not None:
                q = copy.deepcopy(cur)
                q["planB"].pop(k)
                cands.append(q)
        for k in ("hash", "opt", "utf8", "clock"):
            if cur["envB"][k] != CANON[k]:
                q = copy.deepcopy(cur)
                q["envB"][k] = CANON[k]
                cands.append(q)
        if cur["envB"]["vars"] != CANON["vars"]:
            q = copy.deepcopy(cur)
            q["envB"]["vars"] = dict(CANON["vars"])
            cands.append(q)
        for i, rq in enumerate(cur["group"]):
            if len(rq.get("p") or []) > 1:
                for k in range(len(rq["p"])):
                    q = copy.deepcopy(cur)
                    q["group"][i]["p"] = [rq["p"][k]]
                    cands.append(q)
        for q in cands:
            if tries[0] >= limit:
                break
            if bad(q):
                cur = q
                progress = True
                break
    return cur, tries[0]


def emit(o):
    sys.__stdout__.write(json.dumps(o, ensure_ascii=True) + "\n")
    sys.__stdout__.flush()


GROUPS = 14
INTERPS = 2


def main():
    job = json.loads(sys.argv[1])
    from sim import run1, catalog as C, seams
    run1.setup_worker()
    seed = job["seed"]
    canon = Interp(CANON)
    start = seams.real_perf()
    for b in job["batches"]:
        t0 = seams.real_perf()
        if t0 - start > job["soft"]:
            break            # slow machine: report what was explored
        rng = random.Random("C12:%d:%d" % (seed, b))
        st = {"t": "batch", "b": b, "runs": 0, "nontrivial": [], "inter": [], "fired": {}, "simtime": 0.0, "ops": 0, "errs": 0, "clockreads": 0,
              "jumps": 0, "locks": {}, "steps": 0, "deadlocks": 0, "events": [], "sites": [], "hot": 0, "log": [], "refs": 0, "badrefs": 0,
              "changed": [], "samples": []}
        groups = [rnd_group(rng, C) for _ in range(GROUPS)]
        base = []
        for g, mom, bz in groups:
            base.append(canon.ask(g, PLAIN))
            st["refs"] += len(g)
        for e in range(INTERPS):
            env = rnd_interp(rng)
            I = Interp(env)
            try:
                for n, (g, mom, bz) in enumerate(groups):
                    plan = rnd_plan(rng, mom, bz, len(g))
                    r = I.ask(g, plan)
                    st["runs"] += 1
                    st["ops"] += len(g)
                    if "err" in r or "err" in base[n]:
                        st["errs"] += 1
                        emit({"t": "err", "b": b, "i": n, "err": str(r.get("err") or base[n].get("err")), "prog": {"group": g, "env": env, "plan": plan}})
                        if "gone" in str(r.get("err")):
                            I.close()
                            I = Interp(env)
                        continue
                    h = hashlib.sha256(json.dumps([env, plan, g], sort_keys=True).encode()).hexdigest()[:16]
                    st["inter"].append(hashlib.sha256(json.dumps([env, plan], sort_keys=True).encode()).hexdigest()[:16])
                    st["log"].append(hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()[:16])
                    if any(not C.is_exc(x) for a in r.get("a", []) for x in a):
                        st["nontrivial"].append(h)
                    for k in ("jumps", "step", "advance", "random", "reseed", "cwd", "locale", "tzmid", "clock", "decimal", "warn", "argv", "umask",
                              "digits", "environ", "streams", "thread"):
                        if plan.get(k):
                            st["fired"]["env:" + k] = st["fired"].get("env:" + k, 0) + 1
                    st["fired"]["env:gc=" + plan["gc"]] = st["fired"].get("env:gc=" + plan["gc"], 0) + 1
                    if plan["cwd"] == "deleted":
                        st["fired"]["env:cwd=deleted"] = st["fired"].get("env:cwd=deleted", 0) + 1
                    st["fired"]["env:opt=" + (env["opt"] or "none")] = st["fired"].get("env:opt=" + (env["opt"] or "none"), 0) + 1
                    st["clockreads"] += r.get("reads", 0)
                    st["jumps"] += r.get("jumps", 0)
                    st["simtime"] += min(r.get("cov", 0), 4e9)
                    if not st["samples"]:
                        st["samples"].append({"batch": b, "group": g, "env": env, "plan": plan, "answers": r.get("a")})
                    d = diff(base[n], r)
                    if d is not None:
                        prog = {"kind": "c12", "group": g, "envA": CANON, "planA": PLAIN, "envB": env, "planB": plan}
                        for again in (1, 1, 3, 6):
                            # (more of the same, where it depends on which memory is used again)
                            prog["group"] = g * again
                            x, y = run_pair(prog["group"], CANON, PLAIN, env, plan)
                            if diff(x, y) is not None:
                                break
                        else:
                            emit({"t": "unconfirmed", "b": b, "i": n, "viol": [{"what": "answers differ between environments"}], "prog": prog})
                            st["errs"] += 1
                            continue
                        p, tries = minimise(prog)
                        x, y = run_pair(p["group"], p["envA"], p["planA"], p["envB"], p["planB"])
                        d2 = diff(x, y) or d
                        v = {"what": "an answer depends on the environment", "request": p["group"][d2[0]] if isinstance(d2, list) else None,
                             "canonical": d2[1] if isinstance(d2, list) else d2, "perturbed": d2[2] if isinstance(d2, list) else None,
                             "differences": {"interpreter": {k: p["envB"][k] for k in p["envB"] if p["envB"][k] != CANON[k]}, "plan": p["planB"]}}
                        emit({"t": "violation", "b": b, "i": n, "prog": p, "viol": [v], "confirmed": 1, "tries": tries, "original": prog})
                        return
            finally:
                I.close()
        st["wall"] = seams.real_perf() - t0
        emit(st)
    canon.close()
    emit({"t": "end"})


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child()
    else:
        main()
