"""Judging and minimising single runs; shared by the worker and the replayer."""
import copy
import json
import random

from . import engine as E
from . import catalog as C
from . import props

RUN_TIMEOUT = 60


def setup_worker(cold=False):
    from . import seams
    if cold:
        seams.install()
        seams.keep_code()
    root = seams.load()
    C.bind(root)
    E.init()
    E.VANDAL_READS.update(E.init_vandal())


def attempt(chk, prog, ctx, timeout=RUN_TIMEOUT):
    """-> (outcome, violations, error)"""
    out = E.run(prog, timeout)
    if out.get("hang") and timeout == RUN_TIMEOUT:
        out = E.run(prog, 3 * timeout)       # a slow run is no hang
    if out.get("hang"):
        return None, [{"what": "the run does not finish (no progress)"}], None
    if "err" in out:
        return None, [], out["err"]
    out = out["ok"]
    return out, chk.judge(prog, out, ctx), None


def klass(viol):
    return viol[0]["what"] if viol else None


def drop_op(prog, c, i):
    p = copy.deepcopy(prog)
    del p["clients"][c][i]
    ds = []
    for d in p["dirs"]:
        if d["c"] == c:
            if d["op"] == i:
                continue
            if d["op"] > i:
                d["op"] -= 1
        ds.append(d)
    p["dirs"] = ds
    return p


def drop_client(prog, c):
    p = copy.deepcopy(prog)
    del p["clients"][c]
    ds = []
    for d in p["dirs"]:
        if d["c"] == c:
            continue
        if d["c"] > c:
            d["c"] -= 1
        if d["act"][0] == "switch":
            if d["act"][1] == c:
                continue
            if d["act"][1] > c:
                d["act"][1] -= 1
        ds.append(d)
    p["dirs"] = ds
    return p


def candidates(p):
    if p.get("walk"):
        return
    for c in range(len(p["clients"])):
        if len(p["clients"]) > 1:
            yield drop_client(p, c)
    for k in range(len(p["dirs"])):
        q = copy.deepcopy(p)
        del q["dirs"][k]
        yield q
    for c, ops in enumerate(p["clients"]):
        n = len(ops)
        if n >= 6:
            for lo, hi in ((0, n // 2), (n // 2, n), (0, n // 4), (n // 4, n // 2), (n // 2, 3 * n // 4), (3 * n // 4, n)):
                q = p
                for i in reversed(range(lo, hi)):
                    q = drop_op(q, c, i)
                yield q
        for i in reversed(range(n)):
            yield drop_op(p, c, i)
    for part in ("setup", "final"):
        if len(p.get(part) or []) > 1:
            q = copy.deepcopy(p)
            q[part] = [o for o in q[part] if o[0] == "new"]
            yield q
        for i in reversed(range(len(p.get(part) or []))):
            if part == "setup" and p[part][i][0] == "new":
                continue
            q = copy.deepcopy(p)
            del q[part][i]
            yield q
    for d in p["dirs"]:
        if d["act"][0] == "nestrd" and len(d["act"][2]) > 1:
            for k in range(len(d["act"][2])):
                save = d["act"][2]
                d["act"][2] = [save[k]]
                q = copy.deepcopy(p)
                d["act"][2] = save
                yield q
    used = {d["act"][1] for d in p["dirs"] if d["act"][0] == "nestrd"} | {o[1] for part in [p["setup"], p["final"]] + p["clients"] for o in part if o[0] in ("rd", "vrd", "ident", "sect")}
    handed = json.dumps(p["clients"] + [p["setup"], p["final"]])
    for i in reversed(range(len(p["setup"]))):
        if p["setup"][i][0] == "new" and p["setup"][i][1] not in used and '{"$": %s}' % json.dumps(p["setup"][i][1]) not in handed:
            q = copy.deepcopy(p)
            del q["setup"][i]
            yield q
    if p.get("order"):
        q = copy.deepcopy(p)
        q["order"] = []
        yield q
        q = copy.deepcopy(p)
        q["order"] = p["order"][:len(p["order"]) // 2]
        yield q
    # fewer readings per request
    for part in p["clients"] + [p["setup"], p["final"]]:
        for o in part:
            if o[0] in ("many", "flood"):
                n = len(o[1])
                size = n // 2
                while size >= 1:
                    for lo in range(0, n, size):
                        if size == n or n - len(o[1][lo:lo + size]) < 1 or (size < n // 16 and size > 1):
                            continue
                        save = o[1]
                        o[1] = save[:lo] + save[lo + size:]
                        q = copy.deepcopy(p)
                        o[1] = save
                        yield q
                    size //= 2
            paths = o[1].get("p") if o[0] in ("q", "vq", "rep") else (o[2] if o[0] in ("rd", "vrd") else None)
            if paths and len(paths) > 1:
                for k in range(len(paths)):
                    save = list(paths)
                    del paths[k]
                    q = copy.deepcopy(p)
                    paths[:] = save
                    yield q
            if o[0] == "fix" and o[2] and len(o[2]) > 18:
                save = o[2]
                for k in range(0, len(save), 18):
                    o[2] = save[:k] + save[k + 18:]
                    q = copy.deepcopy(p)
                    o[2] = save
                    yield q


def minimise(chk, prog, ctx, want, budget=160, seconds=60):
    from . import seams
    t0 = seams.real_perf()
    tries = 0
    cur = prog
    progress = True
    timeout = RUN_TIMEOUT
    if want.startswith("the run does not finish"):
        timeout, budget = 45, 4      # (a candidate that is merely slow must not be taken for one that hangs)
    while progress and tries < budget and seams.real_perf() - t0 < seconds:
        progress = False
        for cand in candidates(cur):
            if tries >= budget or seams.real_perf() - t0 > seconds:
                break
            tries += 1
            try:
                out, viol, err = attempt(chk, cand, ctx, timeout)
            except Exception:
                continue
            if not err and viol and any(v["what"] == want for v in viol):
                cur = cand
                progress = True
                break
    return cur, tries


def explicit(prog, out):
    """the same execution with its in-run random choices written out as directives"""
    if not prog.get("walk"):
        return prog
    p = copy.deepcopy(prog)
    codes = p["walk"]["codes"]
    p.pop("walk")
    p["dirs"] = [f for f in out["fired"]]
    # keep the same code instrumented, so that occurrence counts agree
    p["watch"] = codes
    return p


def run_batch(chk, seed, bno, ctx, nruns=None):
    """One batch = one seed. Yields (index, prog, outcome, violations, error)."""
    brng = random.Random("%s:%d:%d" % (chk.id, seed, bno))
    ctx.bno = bno
    b = chk.batch(brng, ctx)
    clash = props.clash_batch(random.Random("clash:%s:%d:%d" % (chk.id, seed, bno)), chk, b, ctx)
    if chk.needs_hot:
        warmq = list(b.get("qs") or [])[:12]
        extra = chk.warm_ops(brng, b) if hasattr(chk, "warm_ops") else []
        if warmq or extra:
            ctx.warm(warmq, extra)
    for i in range(nruns or chk.batch_size):
        rng = random.Random("%s:%d:%d:%d" % (chk.id, seed, bno, i))
        props.CLASH = clash if clash and rng.random() < 0.8 else None
        prog = chk.make(rng, b, ctx)
        props.CLASH = None
        out, viol, err = attempt(chk, prog, ctx)
        yield i, prog, out, viol, err
