"""The properties: workload generation, fault and schedule space, and oracle of each."""
import json
import random
import datetime

from . import seams
from . import catalog as C
from . import engine as E
from . import holiday_model as H

HOL_KINDS = ("hol", "hols", "holt", "work")
PROPS = {}


def prop(cls):
    PROPS[cls.id] = cls
    return cls


class Ctx:
    """Per-worker services shared by the checks."""

    def __init__(self):
        self.refs = E.Refs()
        self.reach = E.Reach(cap=12)
        self.hot = []
        self.changed = []
        self.lazy = []
        self.names = set()
        self._base = None
        self._groups = None
        self.shared = []
        self.clockrefs = {}

    def warm(self, queries, extra=()):
        self.hot, self.changed, self.lazy, self.names = E.hot_codes(queries, extra)

    def groups(self):
        """what the readings and requests of the catalog share, found by surveying them once: a list of (code, entries that
        reach it), an entry being (slot setup or None, reading or request)"""
        if self._groups is None:
            rng = random.Random("survey")
            kinds = sorted(SLOT_CLS)
            setup = shared_slots(rng, {"pool": C.Pool(rng, 2)}, len(kinds), kinds)
            ents = []
            for o in setup:
                cls = SLOT_CLS[o[3]]
                for m in C.GETTERS[cls]:
                    if m not in C._HEAVY.get(cls, ()):
                        ents.append((o, [[m]]))
                for path in slot_paths(rng, o[3], 6):
                    ents.append((o, path))
            for k in C.KINDS:
                pool = C.Pool(rng, 1, (k,), 1)
                for _ in range(6):
                    ents.append((None, pool.draw()))
            rng.shuffle(ents)
            ops = [["rd", o[1], [x]] if o else ["q", x] for o, x in ents]
            r, self.shared = E.survey(setup, ops)
            self._groups = [(k, [ents[n] for n in ns], len(ns) / len(ents)) for k, ns in sorted(r.items())]
        return self._groups

    def touching(self, key):
        """instructions that name state seen to change between calls"""
        refs = E.info(key).refs
        out = set()
        for n in self.names & set(refs):
            out |= refs[n]
        return out

    def clockref(self, q, ts):
        k = (ts, C.key(q))
        if k not in self.clockrefs:
            if len(self.clockrefs) > 5000:
                self.clockrefs.clear()
            self.clockrefs[k] = E.Refs({"clock": ts}).get(q)
        return self.clockrefs[k]

    def base_table(self):
        """(base dict, names) of the shipped table."""
        if self._base is None:
            def f():
                hu = C.CLS["HolidayUtil"]
                s = H.shipped_table(hu)
                names = list(hu.NAMES)
                if s is not None:
                    return [names, [list(x) for x in H.parse(s)], "shipped"]
                out = []
                d = datetime.date(1999, 1, 1)
                while d.year < 2036:
                    h = hu.getHoliday(d.year, d.month, d.day)
                    if h is not None:
                        out.append([d.strftime("%Y%m%d"), names.index(h.getName()), h.isWork(), h.getTarget().replace("-", "")])
                    d += datetime.timedelta(days=1)
                return [names, out, "scanned"]
            r = E.in_fork(f, 60)
            if "ok" not in r:
                raise RuntimeError("cannot read the holiday table: %r" % (r,))
            names, recs, how = r["ok"]
            base = {}
            for d, i, w, t in recs:
                base[d] = (i, bool(w), t)
            self._base = (base, tuple(names), how, len(recs))
        return self._base


# ---- runs about one place: readings and requests that all reach the same code changing what calls share
CLASH = None
CLASHING = ("C01", "C02", "C03", "C04", "C05", "C06", "C13", "C14", "C15", "C17")
RARE = 0.12             # what more of the catalog than this reaches, ordinary runs meet often enough


def clash_batch(rng, chk, b, ctx):
    """for some batches, if there is such a place: (code, {kind: readings that reach it}, requests that reach it)"""
    if chk.id not in CLASHING or rng.random() > 0.4:
        return None
    rare = [g for g in ctx.groups() if g[2] < RARE]
    if not rare:
        return None
    code, ents, _ = rng.choice(rare)
    kinds = {}
    for o, x in ents:
        if o is not None:
            kinds.setdefault(o[3], []).append(x)
    for up, low, step in LIFTS:
        if low in kinds:
            kinds.setdefault(up, []).extend([step] + x for x in kinds[low])
    if "qs" in b:
        b["qs"] = [clash_query(rng, b, ents) for _ in range(max(6, len(b["qs"]) * 2 // 3))] + rng.sample(b["qs"], len(b["qs"]) // 3)
    return code, kinds


LIFTS = (("eight", "yun", ["getYun", 1]), ("lunar", "eight", ["getEightChar"]), ("lunar", "foto", ["getFoto"]), ("lunar", "tao", ["getTao"]),
         ("lunar", "ltime", ["getTime"]), ("solar", "lunar", ["getLunar"]))


def clash_query(rng, b, ents):
    o, x = rng.choice(ents)
    if o is not None:
        q = shared_slots(rng, b, 1, [o[3]])[0][2]
        return dict(q, p=[(q["p"][0] if q.get("p") else []) + x])
    for _ in range(rng.choice((0, 1, 1, 2))):
        x = C.sibling(rng, x)
    return x


def wide(rng):
    """a request that reads a whole lunar year, in an era of its own"""
    y = rng.randint(*rng.choice(((1, 236), (240, 618), (619, 1644), (619, 1644), (619, 1644), (1645, 1899), (1900, 2100), (2101, 9990))))
    if rng.random() < 0.1:
        y = rng.randint(*rng.choice(C.REFORMS))
    return {"c": "LunarYear.fromYear", "a": [y], "p": []}


def weighted(rng, items):
    return rng.choices([x for x, _ in items], [w for _, w in items])[0]


class Check:
    id = None
    batch_size = 20
    kinds = None
    npaths = None
    needs_hot = True
    companion = False
    cold = False            # runs begin before the library is imported

    # ---- batch: a small world of requests the runs of one batch draw from
    def batch(self, rng, ctx):
        kinds = self.kinds
        if kinds is None and rng.random() < 0.5:
            # swarm: some kinds off
            ks = list(C.KINDS)
            kinds = tuple(sorted(rng.sample(ks, rng.randint(3, 12))))
        pool = C.Pool(rng, rng.choice((1, 1, 2, 3)), kinds, self.npaths)
        qs = [pool.draw() for _ in range(rng.choice((6, 10, 16)))]
        if kinds is None or "lyear" in kinds:
            # a whole lunar year in one answer
            qs += [{"c": "LunarYear.fromYear", "a": [t[0]], "p": []} for t in pool.fams]
            qs += [wide(rng), wide(rng)]
            if rng.random() < 0.3:
                qs += [{"c": "LunarYear.fromYear", "a": [rng.randint(*rng.choice(C.REFORMS))], "p": []}] * 3
        return {"qs": qs, "pool": pool}

    def make(self, rng, b, ctx):
        raise NotImplementedError

    def judge(self, prog, out, ctx):
        raise NotImplementedError

    # ---- helpers
    def expect(self, rec, ctx):
        """reference answer of an operation, or None when there is none"""
        o = rec["op"]
        if o[0] in ("q", "vq", "rep"):
            return ctx.refs.get(o[1])
        return None

    def site(self, rng, ctx, setup, op, mode, focus=False):
        """an instruction inside op: (code, off, occ) or None; mode: 'any' | 'exc' | 'mem'"""
        reach = ctx.reach.of_op(setup, op)
        if not reach:
            return None
        if CLASH and CLASH[0] in reach and rng.random() < 0.6:
            k = CLASH[0]
            ci = E.info(k)
            offs = dict(reach[k])
            x = [o for o in ctx.reach.marked(setup, op).get(k, ()) if o in offs]
            if rng.random() < 0.5:
                x += [o for nm in ctx.shared for o in ci.refs.get(nm, ()) if o in offs]
            cand = [o for o in (x if x and rng.random() < 0.6 else sorted(offs)) if mode == "any" or o in (ci.exc_any if mode == "exc" else ci.exc_mem)]
            if cand:
                off = rng.choice(cand)
                return k, off, 1 if rng.random() < 0.7 else rng.randint(1, max(1, offs[off]))
        keys = sorted(reach)
        hot = [k for k in keys if k in set(ctx.hot)]
        r = rng.random() * (0.36 if focus else 1)
        spots = None
        if r < 0.22:
            # at an instruction that touches shared state
            spots = {}
            marks = ctx.reach.marked(setup, op)
            if marks and rng.random() < 0.5:
                for k in sorted(marks):
                    x = [o for o, _ in reach.get(k, ()) if o in marks[k]]
                    if x:
                        spots[k] = x
            for k in keys if not spots else ():
                t = ctx.touching(k)
                x = [o for o, _ in reach[k] if o in t]
                if x:
                    spots[k] = x
        elif r < 0.36:
            # at an instruction reached once, in code reached often: first-use initialisation
            spots = {}
            for k in keys:
                ns = [n for _, n in reach[k]]
                if max(ns) >= 3:
                    x = [o for o, n in reach[k] if n == 1]
                    if x:
                        spots[k] = x
        if spots:
            k = rng.choice(sorted(spots))
            ci = E.info(k)
            cand = [o for o in spots[k] if mode == "any" or o in (ci.exc_any if mode == "exc" else ci.exc_mem)]
            if cand:
                off = rng.choice(sorted(cand))
                n = dict(reach[k])[off]
                return k, off, 1 if rng.random() < 0.6 else rng.randint(1, max(1, n))
        for _ in range(8):
            r = rng.random()
            if hot and r < 0.5:
                k = rng.choice(hot)
            elif r < 0.8:
                k = rng.choice(keys)
            else:
                k = rng.choices(keys, [len(reach[x]) for x in keys])[0]
            ci = E.info(k)
            offs = dict(reach[k])
            if mode == "any":
                cand = sorted(offs)
            elif mode == "exc":
                cand = sorted(o for o in offs if o in ci.exc_any)
            else:
                cand = sorted(o for o in offs if o in ci.exc_mem)
            if not cand:
                continue
            if rng.random() < 0.5:
                # by line: loops and long expressions do not dominate
                lines = sorted({ci.line.get(o, 0) for o in cand})
                ln = rng.choice(lines)
                cand = [o for o in cand if ci.line.get(o, 0) == ln]
            off = rng.choice(cand)
            n = offs[off]
            occ = 1 if rng.random() < 0.5 else rng.randint(1, max(1, n))
            return k, off, occ
        return None

    def switch_dirs(self, rng, ctx, prog, n, focus=False):
        cl = prog["clients"]
        for _ in range(n):
            c = rng.randrange(len(cl))
            if not cl[c]:
                continue
            i = rng.randrange(len(cl[c]))
            s = self.site(rng, ctx, self.slot_setup(prog), cl[c][i], "any", focus)
            if s is None:
                continue
            k = rng.choice([x for x in range(len(cl)) if x != c] or [c])
            prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["switch", k]})

    @staticmethod
    def slot_setup(prog):
        return [o for o in prog.get("setup", []) if o[0] == "new"]

    def walk(self, rng, ctx, prog):
        codes = set()
        for c in prog["clients"]:
            for o in c:
                r = sorted(ctx.reach.of_op(self.slot_setup(prog), o))
                hot = [k for k in r if k in set(ctx.hot)]
                codes |= set(hot)
                if r:
                    codes.add(rng.choice(r))
        prog["walk"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice((0.02, 0.1, 0.3)), "codes": sorted(codes), "max": 30}

    def order(self, rng, prog):
        prog["order"] = [rng.randrange(12) for _ in range(60)]

    def slotref(self, prog, slot, path, ctx):
        slot = slot.split("~")[0]          # a copy is called after its original
        for o in prog.get("setup", []):
            if o[0] == "new" and o[1] == slot:
                q = o[2]
                pre = q["p"][0] if q.get("p") else []
                r = ctx.refs.get({"c": q["c"], "a": q["a"], "p": [pre + path]})
                return None if r is None else r[0]
        return None

    def compare(self, prog, out, ctx, relaxed=False):
        """every answer equals the answer the request gets alone; relaxed: operations hit by an
        injected exception may raise instead"""
        slots = {o[1]: o[2] for o in prog.get("setup") or [] if o[0] == "new"}
        reads = {}
        for r in (out["setup"] + out["hist"] + out["final"]) if prog.get("all") or prog.get("many") else ():
            o = r["op"]
            if o[0] in ("rd", "vrd") and o[1] in slots:
                q = slots[o[1]]
                pre = q["p"][0] if q.get("p") else []
                ps = [pre + p for p in o[2]]
            elif o[0] == "q" and len(o[1].get("p") or []) == 1 and '"$"' not in json.dumps(o[1]):
                q, ps = o[1], o[1]["p"]
            else:
                continue
            x = reads.setdefault(json.dumps([q["c"], q["a"]]), [q["c"], q["a"], []])[2]
            x += ps
        for c, a, ps in reads.values():
            if len(ps) > 4:
                ctx.refs.prefetch(c, a, ps)
        bad = self.compare1(prog, out, ctx, relaxed)
        if bad and ctx.refs.soft:
            # provisional reference answers were used: settle it with each request alone
            ctx.refs.soft.clear()
            bad = self.compare1(prog, out, ctx, relaxed)
        return bad

    def compare1(self, prog, out, ctx, relaxed):
        bad = []
        if out.get("deadlock"):
            who = [r for r in out["hist"] if r.get("v") and str(r["v"]).find("SimDeadlock") >= 0]
            bad.append({"what": "a call waits forever", "where": [(r["c"], r["i"], r["op"]) for r in who][:3]})
        for r in out["setup"] + out["hist"] + out["final"]:
            o = r["op"]
            v = r.get("v")
            if o[0] in ("q", "vq", "rep"):
                e = ctx.refs.get(spelled(o[1], prog))
                if e is None:
                    continue
                self.cmp1(bad, r, v, e, relaxed)
            elif o[0] in ("rd", "vrd", "send"):
                e = [self.slotref(prog, o[1], p, ctx) for p in o[2]]
                if v == ["noslot"] or any(x is None and False for x in e):
                    continue
                # a slot whose construction raised was reported by "new"
                if any(C.is_exc(x) for x in e):
                    pass
                self.cmp1(bad, r, v, e, relaxed)
            elif o[0] == "fork":
                es = [ctx.refs.get(spelled(q, prog)) for q in o[1]]
                if v and isinstance(v[0], list) and v[0][:1] == ["!!"]:
                    bad.append({"what": "the forked child did not answer", "op": o, "got": v})
                    continue
                for q, e, x in zip(o[1], es, v):
                    if e is not None and x != e:
                        bad.append({"what": "wrong answer in the forked child", "op": ["q", q], "got": x, "want": e})
            elif o[0] in ("ident", "sect", "fix", "fixnames", "copy", "pick", "together"):
                if v and isinstance(v[0], list) and v[0][:1] == ["!!"] and not (relaxed and r.get("inj")):
                    bad.append({"what": "call failed", "op": o, "got": v})
        for n in out.get("nested", []):
            a = n["act"]
            if a[0] == "nest":
                e = ctx.refs.get(spelled(a[1], prog))
            else:
                e = [self.slotref(prog, a[1], p, ctx) for p in a[2]]
            if e is not None and n["v"] != e and n["v"] != ["noslot"]:
                bad.append({"what": "wrong answer of a nested call", "op": a, "got": n["v"], "want": e})
        return bad

    def cmp1(self, bad, r, v, e, relaxed):
        if v == e:
            if v and isinstance(v[0], list) and v[0][:2] == ["!!", "SimDeadlock"]:
                bad.append({"what": "a call waits forever even alone", "op": r["op"], "got": v})
            return
        opts = r["op"][2] if r["op"][0] == "q" and len(r["op"]) > 2 else None
        hit = r.get("inj") or (opts and "rec" in opts)
        if relaxed and hit:
            if not v:
                return
            if isinstance(v[0], list) and v[0][:2] == ["!!", "SimDeadlock"]:
                bad.append({"what": "the interrupted call waits forever", "op": r["op"], "got": v})
                return
            if isinstance(v[0], list) and v[0][:1] == ["!!"]:
                return
            if len(v) == 1 and C.is_exc(v[0]):
                return
            if len(v) == len(e) and all(a == b or C.is_exc(a) for a, b in zip(v, e)):
                return
            bad.append({"what": "the interrupted call returned a wrong answer", "op": r["op"], "got": v, "want": e, "inj": r.get("inj")})
            return
        bad.append({"what": "answer differs from the answer alone", "op": r["op"], "got": v, "want": e})

    # ---- many readings of few objects, something happening inside each of them
    def dense(self, rng, b, ctx, n, act, clients=1, setup=None):
        """a program of n readings per client, with a directive at a random instruction of (nearly) each"""
        prog = {"env": {}, "setup": setup or shared_slots(rng, b, rng.choice((1, 1, 2))), "clients": [], "dirs": [], "final": [], "all": True}
        slots = [o for o in prog["setup"] if o[0] == "new"]
        paths = {o[1]: dense_paths(rng, o[3], n) for o in slots}
        for c in range(clients):
            ops = []
            own = rng.random() < 0.3
            for _ in range(n):
                o = rng.choice(slots)
                p = rng.choice(paths[o[1]])
                ops.append(["q", {"c": o[2]["c"], "a": o[2]["a"], "p": [(o[2]["p"][0] if o[2].get("p") else []) + p]}] if own else ["rd", o[1], [p]])
            counts = ctx.reach.counts(prog["setup"], ops, 2000000)
            ops = ops[:len(counts)]
            prog["clients"].append(ops)
            for i, k in enumerate(counts):
                if k > 2 and rng.random() < (0.9 if k < 20000 else 0.2 if k < 400000 else 0):
                    prog["dirs"].append({"c": c, "op": i, "nth": 1 + int(k * rng.random()), "act": act(c, ops[i], paths)})
        return prog

    # evidence: is this run non-trivial?
    def nontrivial(self, prog, out):
        return out["switches"] > len(prog["clients"])


def shared_slots(rng, b, n, kinds=None):
    """setup operations creating objects that several callers read"""
    out = []
    for s in range(n):
        t = rng.choice(b["pool"].fams)
        v = C.vary_moment(rng, t)
        r = rng.random()
        if r < 0.2:
            v = C.edge_moment(rng)
        elif r < 0.32:
            v = C.feast_moment(rng, v[0])
        elif r < 0.45:
            v[3:] = [23, rng.randint(0, 59), rng.choice((0, 59))]
        school = [["!", "setSect", rng.choice((1, 1, 2))]] if rng.random() < 0.4 else []
        gender = rng.randint(0, 1)
        kind = weighted(rng, (("lunar", 6), ("eight", 3), ("lyear", 2), ("lmonth", 1), ("yun", 2), ("solar", 1),
                              ("week", 1), ("dayun", 1), ("foto", 1), ("tao", 1), ("ltime", 1), ("liunian", 1), ("jieqi", 1),
                              ("liuyue", .7), ("xiaoyun", .7), ("nine", .6), ("smonth", .7), ("season", .5), ("half", .5), ("syear", .5),
                              ("holiday", .7), ("fu", .4), ("shujiu", .4), ("lmonth2", .6), ("fotof", .3), ("taof", .3)))
        if kinds:
            kind = kinds[s]
        elif CLASH and CLASH[1] and rng.random() < 0.75:
            kind = rng.choice(sorted(CLASH[1]))
        base = {"c": "Solar.fromYmdHms", "a": v}
        if kind == "lunar":
            q = dict(base, p=[[["getLunar"]]])
        elif kind == "eight":
            q = dict(base, p=[[["getLunar"], ["getEightChar"]] + school])
        elif kind == "yun":
            q = dict(base, p=[[["getLunar"], ["getEightChar"]] + school + [["getYun", gender, rng.randint(1, 2)]]])
        elif kind == "dayun":
            q = dict(base, p=[[["getLunar"], ["getEightChar"], ["getYun", rng.randint(0, 1)], ["getDaYun"], ["#", rng.randint(0, 3)]]])
        elif kind == "liunian":
            q = dict(base, p=[[["getLunar"], ["getEightChar"], ["getYun", rng.randint(0, 1)], ["getDaYun"], ["#", 1], ["getLiuNian"], ["#", rng.randint(0, 5)]]])
        elif kind == "jieqi":
            q = dict(base, p=[[["getLunar"], ["getPrevJieQi"]]])
        elif kind == "foto":
            q = dict(base, p=[[["getLunar"], ["getFoto"]]])
        elif kind == "tao":
            q = dict(base, p=[[["getLunar"], ["getTao"]]])
        elif kind == "ltime":
            q = dict(base, p=[[["getLunar"], ["getTime"]]])
        elif kind == "liuyue":
            q = dict(base, p=[[["getLunar"], ["getEightChar"], ["getYun", rng.randint(0, 1)], ["getDaYun"], ["#", 1], ["getLiuNian"], ["#", 1],
                               ["getLiuYue"], ["#", rng.randint(0, 11)]]])
        elif kind == "xiaoyun":
            q = dict(base, p=[[["getLunar"], ["getEightChar"], ["getYun", rng.randint(0, 1)], ["getDaYun"], ["#", 1], ["getXiaoYun"], ["#", rng.randint(0, 5)]]])
        elif kind == "nine":
            q = dict(base, p=[[["getLunar"], [rng.choice(("getDayNineStar", "getYearNineStar", "getMonthNineStar", "getTimeNineStar"))]]])
        elif kind == "smonth":
            q = {"c": "SolarMonth.fromYm", "a": v[:2], "p": []}
        elif kind == "season":
            q = {"c": "SolarSeason.fromYm", "a": v[:2], "p": []}
        elif kind == "half":
            q = {"c": "SolarHalfYear.fromYm", "a": v[:2], "p": []}
        elif kind == "syear":
            q = {"c": "SolarYear.fromYear", "a": v[:1], "p": []}
        elif kind == "holiday":
            y = rng.randint(2008, 2024)
            q = {"c": "HolidayUtil.getHolidays", "a": [y], "p": [[["#", rng.randint(0, 9)]]]}
        elif kind == "fu":
            q = {"c": "Solar.fromYmd", "a": [v[0], 7, rng.randint(25, 31)], "p": [[["getLunar"], ["getFu"]]]}
        elif kind == "shujiu":
            q = {"c": "Solar.fromYmd", "a": [v[0], 1, rng.randint(1, 28)], "p": [[["getLunar"], ["getShuJiu"]]]}
        elif kind == "lmonth2":
            q = {"c": "LunarYear.fromYear", "a": [v[0]], "p": [[["getMonths"], ["#", rng.randint(0, 12)]]]}
        elif kind == "fotof":
            q = {"c": "Foto.fromYmd", "a": [2565, 4, 8], "p": [[["getFestivals"], ["#", 0]]]}
        elif kind == "taof":
            q = {"c": "Tao.fromYmd", "a": [4717, 1, 15], "p": [[["getFestivals"], ["#", 0]]]}
        elif kind == "solar":
            q = dict(base, p=[])
        elif kind == "lyear":
            q = {"c": "LunarYear.fromYear", "a": [v[0]], "p": []}
        elif kind == "lmonth":
            q = {"c": "LunarMonth.fromYm", "a": [v[0], v[1]], "p": []}
        else:
            q = {"c": "SolarWeek.fromYmd", "a": v[:3] + [rng.randint(0, 1)], "p": []}
        out.append(["new", "s%d" % s, q, kind])
    return out


SLOT_CLS = {"lunar": "Lunar", "eight": "EightChar", "yun": "Yun", "dayun": "DaYun", "liunian": "LiuNian", "jieqi": "JieQi",
            "foto": "Foto", "tao": "Tao", "ltime": "LunarTime", "solar": "Solar", "lyear": "LunarYear", "lmonth": "LunarMonth", "week": "SolarWeek",
            "liuyue": "LiuYue", "xiaoyun": "XiaoYun", "nine": "NineStar", "smonth": "SolarMonth", "season": "SolarSeason", "half": "SolarHalfYear",
            "syear": "SolarYear", "holiday": "Holiday", "fu": "Fu", "shujiu": "ShuJiu", "lmonth2": "LunarMonth", "fotof": "FotoFestival", "taof": "TaoFestival"}


def slot_paths(rng, kind, n):
    cls = SLOT_CLS[kind]
    ps = C.lunar_paths(rng, n) if kind == "lunar" else C.some(rng, cls, n)
    for i in range(n):
        if kind != "lunar" and rng.random() < 0.35:
            x = None
            if kind == "eight":
                x = [["getYun", rng.randint(0, 1), rng.randint(1, 2)], [rng.choice(C.GETTERS["Yun"])]]
                if rng.random() < 0.2:
                    x = [["getLunar"]] + rng.choice(C.lunar_paths(rng, 1))
            elif kind == "yun":
                x = [["getDaYun", rng.randint(1, 14)]]
                if rng.random() < 0.4:
                    x += [["#", 0], [rng.choice(("getLiuNian", "getXiaoYun")), rng.randint(1, 14)]]
            elif kind == "dayun":
                x = [[rng.choice(("getLiuNian", "getXiaoYun")), rng.randint(1, 14)]]
                if rng.random() < 0.3:
                    x += [["#", 0], [rng.choice(C.GETTERS["LiuNian" if x[0][0] == "getLiuNian" else "XiaoYun"])]]
            elif kind == "lyear":
                x = rng.choice(([["getMonth", rng.randint(-12, 12)]], [["getPositionFu", rng.randint(1, 2)]], [["next", rng.randint(-2, 2)]]))
            elif kind in ("lmonth", "lmonth2"):
                x = [["next", rng.randint(-14, 14)]]
            elif kind == "smonth":
                x = rng.choice(([["next", rng.randint(-14, 14)]], [["getWeeks", rng.randint(0, 6)]]))
            elif kind in ("season", "half", "syear"):
                x = [["next", rng.randint(-5, 5)]]
            elif kind == "week":
                x = [["next", rng.randint(-5, 5), rng.random() < 0.5]]
            elif kind == "solar":
                x = rng.choice(([["next", rng.randint(-40, 40)]], [["getLunar"]], [["nextMonth", rng.randint(-14, 14)]], [["nextHour", rng.randint(-30, 30)]]))
            if x:
                ps[i] = x
    mine = CLASH and CLASH[1].get(kind)
    if mine:
        for i in range(n):
            if rng.random() < 0.75:
                ps[i] = rng.choice(mine)
    if n > 2:
        # readings easily confused with others of the set
        for i in range(n):
            if rng.random() < 0.4:
                ps[i] = C.sib_path(rng, rng.choice(ps), cls)
    return ps


def dense_paths(rng, kind, n):
    """up to n readings of an object, different ones as far as possible"""
    cls = SLOT_CLS[kind]
    names = list(C.GETTERS[cls])
    rng.shuffle(names)
    if kind == "lunar":
        heavy = C._HEAVY["Lunar"]
        names = [x for x in names if x not in heavy or rng.random() < 0.3]
    ps = [[C.with_args(rng, cls, m)] for m in names[:n]]
    k = max(2, n // 4)
    if CLASH and CLASH[1].get(kind):
        del ps[n // 3:]
        k = n
    ps += slot_paths(rng, kind, k)
    if kind == "lunar":
        ps += [[["getEightChar"]] + p for p in slot_paths(rng, "eight", k)]
    rng.shuffle(ps)
    return ps[:n]


def hand_op(rng, o):
    """a request that is handed the shared object as an argument"""
    a = {"$": o[1]}
    if o[3] == "solar":
        r = rng.random()
        if r < 0.4:
            return ["q", {"c": "Lunar.fromSolar", "a": [a], "p": C.lunar_paths(rng, 2)}]
        v = list(o[2]["a"])
        for _ in range(rng.choice((0, 1, 2))):
            v = C.vary_moment(rng, v)
        return ["q", {"c": "Solar.fromYmdHms", "a": v, "p": [[[x, a]] for x in rng.sample(("subtract", "subtractMinute", "isAfter", "isBefore"), 2)]}]
    c = rng.choice(("Foto.fromLunar", "Tao.fromLunar", "EightChar.fromLunar"))
    return ["q", {"c": c, "a": [a], "p": C.some(rng, c.split(".")[0], 2)}]


def spelled(q, prog):
    """the same request with the shared objects it is handed written out as requests of their own"""
    s = json.dumps(q)
    if '{"$"' not in s:
        return q
    slots = {o[1]: o[2] for o in prog.get("setup") or [] if o[0] == "new"}

    def sub(x):
        if isinstance(x, dict):
            if "$" in x:
                return {"q": slots[x["$"]]}
            return {k: sub(v) for k, v in x.items()}
        return [sub(v) for v in x] if isinstance(x, list) else x
    return sub(q)


def rd_op(rng, setup, n=None):
    o = rng.choice(setup)
    if o[3] in ("solar", "lunar") and rng.random() < 0.15:
        return hand_op(rng, o)
    return ["rd", o[1], slot_paths(rng, o[3], n or rng.choice((1, 1, 2, 3)))]


# =================================================================== C01
@prop
class C01(Check):
    """threads: preemption at any bytecode, cold start, shared objects"""
    id = "C01"

    def make(self, rng, b, ctx):
        if rng.random() < 0.12:
            nc = rng.choice((2, 2, 3))
            prog = self.dense(rng, b, ctx, rng.choice((10, 25)), lambda c, o, paths: ["switch", rng.randrange(nc)], nc)
            self.order(rng, prog)
            return prog
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        if rng.random() < 0.15:
            # the first calls of a process, at the places where state is first made
            prog["clients"] = [[["q", rng.choice(b["qs"])]] for _ in range(rng.choice((2, 2, 3)))]
            for c in prog["clients"][1:]:
                c += [["q", wide(rng)] for _ in range(rng.choice((0, 1, 2)))]
            self.order(rng, prog)
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 1, 2)), True)
            prog["final"] = [["q", c[0][1]] for c in prog["clients"]] + [["q", C.rnd_scan(rng)] for _ in range(rng.choice((0, 0, 2)))]
            return prog
        nslots = rng.choice((0, 0, 1, 1, 2))
        prog["setup"] = shared_slots(rng, b, nslots)
        if rng.random() < 0.3:
            prog["setup"] += [["q", rng.choice(b["qs"])] for _ in range(rng.randint(1, 4))]
        nc = rng.choice((2, 2, 2, 3, 3, 4))
        slots = [o for o in prog["setup"] if o[0] == "new"]
        same = rng.random() < 0.3
        for c in range(nc):
            ops = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                if slots and rng.random() < 0.5:
                    ops.append(rd_op(rng, slots))
                elif same:
                    ops.append(["q", b["qs"][0]])
                else:
                    ops.append(["q", rng.choice(b["qs"])])
            prog["clients"].append(ops)
        self.order(rng, prog)
        if rng.random() < 0.2:
            self.walk(rng, ctx, prog)
        else:
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 1, 2, 2, 3, 5)))
        if rng.random() < 0.3:
            prog["final"] = [["q", rng.choice(b["qs"])] for _ in range(2)]
        return prog

    def judge(self, prog, out, ctx):
        return self.compare(prog, out, ctx)


# =================================================================== C02
@prop
class C02(Check):
    """histories: every request after an arbitrary history equals the request alone"""
    id = "C02"
    batch_size = 4

    def batch(self, rng, ctx):
        b = super().batch(rng, ctx)
        pool = b["pool"]
        b["qs"] = [pool.draw() for _ in range(rng.choice((20, 40, 60)))]
        return b

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": [], "order": []}
        if rng.random() < 0.3:
            prog["clients"] = [[["many", C.burst(rng, b["pool"].era) if rng.random() < 0.6 else C.panorama(rng, b["pool"].era),
                                 rng.random() < 0.2] for _ in range(rng.choice((1, 1, 2)))]]
            return prog
        n = rng.choice((4, 10, 25, 40, 60))
        ops = []
        style = rng.random()
        qs = b["qs"]
        if style < 0.15:
            qs = rng.sample(qs, min(len(qs), 4))
        for _ in range(n):
            r = rng.random()
            if r < 0.80:
                ops.append(["q", rng.choice(qs)])
            elif r < 0.86:
                ops.append(["q", C.bad_query(rng)])
            elif r < 0.90:
                ops.append(["rep", rng.choice(qs), rng.choice((2, 3, 5, 30))])
            elif r < 0.93:
                ops.append(["gc"])
            elif r < 0.96:
                ops.append(["clock", rng.choice((1, 60, 86400, 30 * 86400))])
            else:
                ops.append(["q", C.gen_query(rng, C.rnd_moment(rng))])
        if rng.random() < 0.15:
            # a long run of distinct cheap requests (fills bounded caches)
            y0 = rng.randint(1900, 2000)
            k = rng.choice(("LunarYear.fromYear", "Solar.fromYmd", "SolarMonth.fromYm"))
            m = rng.choice((20, 70, 140, 300))
            for i in range(m):
                a = {"LunarYear.fromYear": [y0 + i % 120], "Solar.fromYmd": [y0 + i % 7, 1 + i % 12, 1 + i % 28],
                     "SolarMonth.fromYm": [y0 + i // 12, 1 + i % 12]}[k]
                p = {"LunarYear.fromYear": [[["getLeapMonth"]]], "Solar.fromYmd": [[["getLunar"]]], "SolarMonth.fromYm": [[["getDays"]]]}[k]
                if k == "LunarYear.fromYear" and i > 60:
                    break
                ops.insert(rng.randint(0, len(ops)), ["q", {"c": k, "a": a, "p": p}])
        if rng.random() < 0.45:
            # the same readings of easily confused arguments, one after the other
            tw = []
            for _ in range(rng.choice((1, 2, 4))):
                q = rng.choice(qs)
                fam = [q]
                for _ in range(rng.choice((2, 4, 8))):
                    fam.append(C.sibling(rng, rng.choice(fam)))
                tw += fam + rng.sample(fam, min(len(fam), 3))
            if rng.random() < 0.5:
                rng.shuffle(tw)
            at = rng.randint(0, len(ops))
            ops[at:at] = [["q", q] for q in tw]
        if rng.random() < 0.12:
            # one reading over a great many arguments, then a few of them again
            q = rng.choice(qs)
            if rng.random() < 0.3:
                y = rng.randint(1, 3000)
                many = [{"c": "LunarYear.fromYear", "a": [y + i], "p": [[["getLeapMonth"]]]} for i in range(rng.choice((70, 150, 300, 600, 1100)))]
            else:
                many = [q]
                for _ in range(rng.choice((70, 150, 300))):
                    many.append(C.sibling(rng, rng.choice(many[-6:])))
            ops.append(["flood", many])
            ops += [["q", x] for x in rng.sample(many, 6) + many[-3:] + many[:3]]
        # ask again at the end
        ops += [["q", rng.choice(qs)] for _ in range(3)]
        prog["clients"] = [ops]
        return prog

    def judge(self, prog, out, ctx):
        bad = self.compare(prog, out, ctx)
        for r in out["hist"]:
            if r["op"][0] != "many" or bad:
                continue
            qs, v = r["op"][1], r["v"]
            if len(v) != len(qs):
                bad.append({"what": "the history could not be run", "got": v[:1]})
                continue
            if len(qs) <= 6:
                sus = range(len(qs))
            else:
                # the same requests in other orders, each in a process of its own; what any of them answers
                # differently is compared with the request alone
                sus = set()
                rng = random.Random(len(qs))
                for k in range(2):
                    order = list(range(len(qs)))
                    rng.shuffle(order) if k else order.reverse()
                    w = E.in_fork(lambda: [C.evaluate(qs[i]) for i in order], 60).get("ok")
                    if w is not None:
                        sus |= {i for i, x in zip(order, w) if x != v[i]}
                sus = sorted(sus)
            for i in list(sus)[:40]:
                e = ctx.refs.get(qs[i])
                if e is not None and e != v[i]:
                    bad.append({"what": "answer differs from the answer alone", "op": ["q", qs[i]], "got": v[i], "want": e})
                    break
        return bad

    def nontrivial(self, prog, out):
        return len({json.dumps(o) for o in prog["clients"][0]}) > 3 or any(o[0] == "many" for o in prog["clients"][0])


# =================================================================== C03
RAISES = ("KeyboardInterrupt", "SimTimeout", "SimCancel", "MemoryError", "RecursionError", "SystemExit", "TimeoutError")


@prop
class C03(Check):
    """interruption: an exception strikes inside a call; everything afterwards is as if it had not happened"""
    id = "C03"

    def make(self, rng, b, ctx):
        if rng.random() < 0.35:
            prog = self.dense(rng, b, ctx, rng.choice((15, 40, 80)), lambda c, o, paths: ["raise", rng.choice(RAISES)])
            prog["final"] = [o for o in prog["clients"][0] if rng.random() < 0.5] + [["q", rng.choice(b["qs"])]]
            return prog
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        prog["setup"] = shared_slots(rng, b, rng.choice((0, 0, 1, 1)))
        slots = list(prog["setup"])
        if rng.random() < 0.4:
            prog["setup"] += [["q", rng.choice(b["qs"])] for _ in range(rng.randint(1, 3))]
        nc = rng.choice((1, 1, 1, 2, 3))
        for c in range(nc):
            ops = []
            for _ in range(rng.choice((1, 2, 3))):
                r = rng.random()
                if slots and r < 0.35:
                    ops.append(rd_op(rng, slots))
                elif r < 0.45:
                    ops.append(["q", C.bad_query(rng)])
                elif r < 0.52:
                    ops.append(["q", rng.choice(b["qs"]), {"rec": rng.randint(1, 14)}])
                else:
                    ops.append(["q", rng.choice(b["qs"])])
            prog["clients"].append(ops)
        hit = None
        for _ in range(rng.choice((1, 1, 2, 3))):
            c = rng.randrange(nc)
            i = rng.randrange(len(prog["clients"][c]))
            name = rng.choice(RAISES)
            s = self.site(rng, ctx, self.slot_setup(prog), prog["clients"][c][i], "mem" if name in ("MemoryError", "RecursionError") else "exc",
                          rng.random() < 0.3)
            if s:
                prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["raise", name]})
                hit = prog["clients"][c][i]
        if nc > 1 and rng.random() < 0.6:
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 2)))
        self.order(rng, prog)
        fin = []
        if hit is not None:
            fin.append(hit[:2] if hit[0] == "q" else hit)      # the same request again, undisturbed
        for _ in range(rng.choice((2, 3, 4))):
            if slots and rng.random() < 0.4:
                fin.append(rd_op(rng, slots))
            else:
                fin.append(["q", rng.choice(b["qs"])])
        # also from other threads, after the fault
        if rng.random() < 0.5:
            prog["final"] = fin
        else:
            prog["clients"].append([])
            prog["final"] = fin[:1] + fin
            prog["clients"].pop()
        if not prog["setup"] and rng.random() < 0.5:
            prog["final"] = prog["final"] + [["q", wide(rng)] for _ in range(2)]
        if rng.random() < 0.3:
            prog["final"] = prog["final"] + [["q", C.rnd_scan(rng)] for _ in range(3)]
        return prog

    def judge(self, prog, out, ctx):
        return self.compare(prog, out, ctx, relaxed=True)

    def nontrivial(self, prog, out):
        return any(f["act"][0] == "raise" for f in out["fired"]) or any(
            len(o) > 2 and isinstance(o[2], dict) for c in prog["clients"] for o in c if o[0] == "q")


# =================================================================== C04
@prop
class C04(Check):
    """re-entrancy: calls made in the middle of calls on the same thread"""
    id = "C04"

    def make(self, rng, b, ctx):
        if rng.random() < 0.25:
            def act(c, o, paths):
                s = o[1] if o[0] == "rd" else rng.choice(sorted(paths))
                r = rng.random()
                if r < 0.15:
                    return ["nest", rng.choice(b["qs"])]
                return ["nestrd", s, [o[2][0] if r < 0.45 and o[0] == "rd" else rng.choice(paths[s])]]
            return self.dense(rng, b, ctx, rng.choice((15, 40)), act)
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        prog["setup"] = shared_slots(rng, b, rng.choice((0, 0, 1)))
        slots = list(prog["setup"])
        if rng.random() < 0.4:
            prog["setup"] += [["q", rng.choice(b["qs"])] for _ in range(rng.randint(1, 3))]
        nc = rng.choice((1, 1, 1, 2))
        for c in range(nc):
            prog["clients"].append([rd_op(rng, slots) if slots and rng.random() < 0.3 else ["q", rng.choice(b["qs"])]
                                    for _ in range(rng.choice((1, 1, 2, 3)))])
        for _ in range(rng.choice((1, 1, 2, 3))):
            c = rng.randrange(nc)
            i = rng.randrange(len(prog["clients"][c]))
            s = self.site(rng, ctx, self.slot_setup(prog), prog["clients"][c][i], "exc" if rng.random() < 0.7 else "mem")
            if s:
                o = prog["clients"][c][i]
                r = rng.random()
                q = o[1] if r < 0.25 and o[0] == "q" else rng.choice(b["qs"])
                prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["nest", q]})
        if nc > 1:
            self.switch_dirs(rng, ctx, prog, 1)
        self.order(rng, prog)
        prog["final"] = [["q", rng.choice(b["qs"])] for _ in range(2)]
        return prog

    def judge(self, prog, out, ctx):
        return self.compare(prog, out, ctx)

    def nontrivial(self, prog, out):
        return bool(out["nested"])


def touches_holidays(q):
    return q["c"].startswith("Holiday") or "true]" in json.dumps(q.get("p"))


# =================================================================== C06
@prop
class C06(Check):
    """the vandal caller: mutates everything it is given"""
    id = "C06"

    def make(self, rng, b, ctx):
        if rng.random() < 0.2:
            # everything one object gives, and everything a request about it gives
            prog = {"env": {}, "setup": shared_slots(rng, b, 1), "clients": [[]], "dirs": [], "final": [], "many": True}
            o = prog["setup"][0]
            ps = dense_paths(rng, o[3], rng.choice((12, 30)))
            q = dict(o[2], p=[(o[2]["p"][0] if o[2].get("p") else []) + p for p in ps])
            for p in ps:
                if rng.random() < 0.5:
                    prog["clients"][0].append(["rd", o[1], [p]])
            prog["clients"][0] += [["vrd", o[1], ps, rng.randrange(6)]] + ([["vq", q, rng.randrange(6), "now"]] if rng.random() < 0.5 else [])
            prog["final"] = [["rd", o[1], [p]] for p in ps] + [["q", dict(q, p=[p])] for p in rng.sample(q["p"], min(4, len(ps)))]
            return prog
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        prog["setup"] = shared_slots(rng, b, rng.choice((0, 0, 1, 2)))
        slots = list(prog["setup"])
        nc = rng.choice((1, 2, 2, 3))
        for c in range(nc):
            ops = []
            for _ in range(rng.choice((2, 3, 5))):
                r = rng.random()
                q = rng.choice(b["qs"])
                if slots and rng.random() < 0.5:
                    o = rd_op(rng, slots)
                    if c == 0 and r < 0.75 and o[0] == "rd":
                        o = ["vrd", o[1], o[2], rng.randrange(6)]
                    ops.append(o)
                elif c == 0 and r < 0.75:
                    ops.append(["vq", q, rng.randrange(6), "now" if rng.random() < 0.7 else "later"])
                elif c == 0 and r < 0.85:
                    ops.append(["wreck"])
                else:
                    ops.append(["q", q])
            if c == 0:
                ops.append(["wreck"])
            prog["clients"].append(ops)
        if nc > 1:
            self.switch_dirs(rng, ctx, prog, rng.choice((0, 1, 2)))
        self.order(rng, prog)
        fin = [["q", o[1]] for c in prog["clients"] for o in c if o[0] == "vq"]
        fin += [["rd", o[1], o[2]] for c in prog["clients"] for o in c if o[0] == "vrd"]
        fin += [["rd", o[1], slot_paths(rng, o[3], 3)] for o in slots]
        prog["final"] = fin[:8] + [["q", rng.choice(b["qs"])] for _ in range(2)]
        return prog

    def judge(self, prog, out, ctx):
        return self.compare(prog, out, ctx)

    def nontrivial(self, prog, out):
        return any(r.get("wrecked") for r in out["hist"])


# =================================================================== C14
@prop
class C14(Check):
    """readers in any order, with other use in between, never change an object"""
    id = "C14"

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": shared_slots(rng, b, rng.choice((1, 2, 3))), "clients": [], "dirs": [], "final": []}
        slots = list(prog["setup"])
        if rng.random() < 0.2:
            # every reading there is, twice, in other orders
            prog["setup"], prog["many"] = slots[:1], True
            o = slots[0]
            ps = dense_paths(rng, o[3], rng.choice((20, 60)))
            ops = [["rd", o[1], [p]] for p in ps]
            rng.shuffle(ops)
            for _ in range(rng.choice((0, 3, 8))):
                ops.insert(rng.randint(0, len(ops)), ["q", self.like(rng, o, ps)])
            prog["clients"] = [ops]
            prog["final"] = [["rd", o[1], [p]] for p in rng.sample(ps, len(ps))]
            return prog
        nc = rng.choice((1, 1, 2))
        vocab = {o[1]: slot_paths(rng, o[3], rng.choice((3, 6, 12))) for o in slots}
        for c in range(nc):
            ops = []
            for _ in range(rng.choice((6, 12, 20, 30))):
                r = rng.random()
                if r < 0.7:
                    o = rng.choice(slots)
                    ops.append(["rd", o[1], [rng.choice(vocab[o[1]])]])
                elif r < 0.85:
                    o = rng.choice(slots)
                    ops.append(["rd", o[1], [C.sib_path(rng, rng.choice(vocab[o[1]]), SLOT_CLS[o[3]])]])
                elif r < 0.93:
                    o = rng.choice(slots)
                    ops.append(hand_op(rng, o) if o[3] in ("solar", "lunar") and r < 0.89 else ["q", self.like(rng, o, vocab[o[1]])])
                else:
                    ops.append(["q", rng.choice(b["qs"])])
            prog["clients"].append(ops)
        self.order(rng, prog)
        if nc > 1:
            self.switch_dirs(rng, ctx, prog, rng.choice((0, 1, 2)))
        for o in slots:
            prog["final"].append(["rd", o[1], vocab[o[1]][:6]])
        return prog

    def like(self, rng, o, paths):
        """a request that makes and reads an object easily confused with the one of the slot"""
        q = {"c": o[2]["c"], "a": o[2]["a"], "p": [(o[2]["p"][0] if o[2].get("p") else []) + rng.choice(paths)]}
        for _ in range(rng.choice((1, 1, 2))):
            q = C.sibling(rng, q)
        return q

    def judge(self, prog, out, ctx):
        return self.compare(prog, out, ctx)

    def nontrivial(self, prog, out):
        return sum(1 for c in prog["clients"] for o in c if o[0] == "rd") > 3


# =================================================================== holidays
YEARS = (2008, 2010, 2012, 2013, 2014, 2015, 2016, 2017, 2019, 2020, 2021, 2023, 2024)


class HolidayCheck(Check):
    nnames = 12

    def batch(self, rng, ctx):
        base, names, how, n = ctx.base_table()
        ys = rng.sample(YEARS, 2) + [rng.randint(2026, 2032)]
        listed = sorted(d for d in base if int(d[:4]) in ys)
        rng.shuffle(listed)
        days = listed[:8]
        for y in ys:
            for _ in range(3):
                m = rng.randint(1, 12)
                days.append("%04d%02d%02d" % (y, m, rng.randint(1, C.dim(y, m))))
        # neighbours of listed days, and days whose digits occur inside other records
        for d in listed[:3]:
            dt = datetime.date(int(d[:4]), int(d[4:6]), int(d[6:])) + datetime.timedelta(days=rng.choice((-1, 1, 2)))
            days.append(dt.strftime("%Y%m%d"))
        targets = sorted({base[d][2] for d in listed}) + rng.sample(days, 2)
        rng.shuffle(targets)
        return {"days": sorted(set(days)), "targets": targets[:6], "ys": ys, "n": [0], "fams": [[int(d[:4]), int(d[4:6]), int(d[6:]), 8, 30, 0] for d in days[:3]]}

    def names(self, rng, tag):
        base = None
        n = rng.choice((9, 9, 10, 12, 15))
        r = rng.random()
        if r < 0.2:
            return ["N%s" % tag] * n                      # duplicates are legal
        return ["%s%d" % (tag, i) for i in range(n)]

    def segment(self, rng, b, day, nn):
        if rng.random() < 0.25:
            return day + "~" + "0" * 9
        idx = rng.randrange(nn)
        t = rng.choice(b["targets"]) if rng.random() < 0.7 else day
        return day + chr(48 + idx) + rng.choice("01") + t

    def fixop(self, rng, b, tag, nn, allow_names=True):
        """a correction; nn: names known to be available whatever was applied before"""
        names = None
        k = rng.choice((1, 1, 2, 3, 5, 8))
        if allow_names and rng.random() < 0.35:
            names = self.names(rng, tag)
        days = [rng.choice(b["days"]) for _ in range(k)]
        data = "".join(self.segment(rng, b, d, 9) for d in days)
        r = rng.random()
        if names is not None and r < 0.2:
            data = None
        elif r < 0.3:
            data += "2020"[: rng.randint(1, 4)]           # trailing partial record is ignored
        o = ["fix", names, data]
        if names is not None:
            if rng.random() < 0.3:
                o.append("list")
            elif rng.random() < 0.2:
                o[0] = "fixnames"
        return o

    def lookup(self, rng, b):
        r = rng.random()
        d = rng.choice(b["days"])
        y, m, dd = int(d[:4]), int(d[4:6]), int(d[6:])
        if r < 0.35:
            a = rng.choice(([y, m, dd], ["%04d-%02d-%02d" % (y, m, dd)], [d]))
            return ["q", {"c": "HolidayUtil.getHoliday", "a": a, "p": []}]
        if r < 0.55:
            return ["q", {"c": "HolidayUtil.getHolidays", "a": rng.choice(([y, m], ["%04d-%02d" % (y, m)])), "p": []}]
        if r < 0.75:
            return ["q", {"c": "HolidayUtil.getHolidays", "a": rng.choice(([y], [str(y)])), "p": []}]
        t = rng.choice(b["targets"])
        y, m, dd = int(t[:4]), int(t[4:6]), int(t[6:])
        return ["q", {"c": "HolidayUtil.getHolidaysByTarget", "a": rng.choice(([y, m, dd], ["%04d-%02d-%02d" % (y, m, dd)])), "p": []}]

    def table(self, ctx):
        base, names, how, n = ctx.base_table()
        return H.Table(base, names)

    @staticmethod
    def step_day(t, start, n):
        """n-th working day from start according to model table t"""
        d = datetime.date(*start[:3])
        step = datetime.timedelta(days=1 if n > 0 else -1)
        rest = abs(n)
        while rest:
            d += step
            r = t.get(d.strftime("%Y%m%d"))
            work = d.weekday() < 5 if r is None else r[1]
            if work:
                rest -= 1
        return d

    def expect_op(self, t, o):
        """(new table, expected canonical answer or None)"""
        if o[0] in ("fix", "fixnames"):
            return t.fix(o[1], o[2]), ["ok"]
        if o[0] == "q":
            q = o[1]
            if q["c"] == "Solar.fromYmdHms":
                n = q["p"][0][0][1]
                d = self.step_day(t, q["a"], n)
                return t, [["o", "Solar", "%s %02d:%02d:%02d" % (d.strftime("%Y-%m-%d"), q["a"][3], q["a"][4], q["a"][5])]]
            return t, t.lookup(q)
        return t, None


@prop
class C07(HolidayCheck):
    """sequences of corrections and lookups against the executable table"""
    id = "C07"
    needs_hot = False

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": [], "order": []}
        ops = []
        n = rng.choice((2, 4, 8, 14, 25))
        for i in range(n):
            if rng.random() < 0.4:
                ops.append(self.fixop(rng, b, "n%d_" % i, 9))
            else:
                ops.append(self.lookup(rng, b))
        for _ in range(8):
            ops.append(self.lookup(rng, b))
        if rng.random() < 0.5:
            for d in b["days"]:
                ops.append(["q", {"c": "HolidayUtil.getHoliday", "a": [d], "p": []}])
            for y in b["ys"]:
                ops.append(["q", {"c": "HolidayUtil.getHolidays", "a": [y], "p": []}])
        if rng.random() < 0.4:
            # the sequence is shared between callers that take turns
            prog["clients"] = [ops[0::2], ops[1::2]]
            self.order(rng, prog)
        else:
            prog["clients"] = [ops]
        return prog

    def judge(self, prog, out, ctx):
        bad = []
        t = self.table(ctx)
        for r in sorted(out["hist"], key=lambda r: r["inv"]):
            t, e = self.expect_op(t, r["op"])
            v = H.norm(r.get("v"))
            if e is not None and v != e:
                bad.append({"what": "lookup differs from the table the corrections define", "op": r["op"], "got": v, "want": e})
                if len(bad) > 3:
                    break
        return bad

    def nontrivial(self, prog, out):
        return any(o[0].startswith("fix") for c in prog["clients"] for o in c)


def lin_check(init, apply, hist, limit=200000, norm=H.norm):
    """Is there a one-at-a-time order of the operations consistent with their real-time order that
    explains every result?  hist: dicts with inv, ret, op, v, maybe (effect optional).  Returns
    True / False / None (search limit hit)."""
    n = len(hist)
    seen = set()
    count = [0]

    def rec(done, st):
        if len(done) == n:
            return True
        k = (done, st.key())
        if k in seen:
            return False
        seen.add(k)
        count[0] += 1
        if count[0] > limit:
            raise OverflowError
        horizon = min(h["ret"] for i, h in enumerate(hist) if i not in done)
        for i, h in enumerate(hist):
            if i in done or h["inv"] > horizon:
                continue
            if h.get("maybe") and rec(done | {i}, st):
                return True
            st2, e = apply(st, h["op"])
            if h.get("maybe") or e is None or norm(h["v"]) == e:
                if rec(done | {i}, st2):
                    return True
        return False
    try:
        return rec(frozenset(), init)
    except OverflowError:
        return None


@prop
class C08(HolidayCheck):
    """corrections and lookups from several threads, preempted anywhere, are linearizable"""
    id = "C08"

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        # few days: collisions
        bb = dict(b, days=rng.sample(b["days"], min(len(b["days"]), rng.choice((2, 3, 5)))))
        nc = rng.choice((2, 2, 3))
        if rng.random() < 0.3:
            prog["setup"] = [self.fixop(rng, bb, "s", 9)]
        writers = 0
        for c in range(nc):
            ops = []
            for j in range(rng.choice((1, 2, 3))):
                if rng.random() < (0.7 if c == 0 else 0.45):
                    ops.append(self.fixop(rng, bb, "c%dn%d_" % (c, j), 9))
                else:
                    ops.append(self.lookup(rng, bb))
            prog["clients"].append(ops)
        self.order(rng, prog)
        r = rng.random()
        if r < 0.3:
            self.walk(rng, ctx, prog)
        else:
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 2, 2, 3, 4)))
        for d in bb["days"]:
            prog["final"].append(["q", {"c": "HolidayUtil.getHoliday", "a": [d], "p": []}])
        prog["final"].append(self.lookup(rng, bb))
        return prog

    def judge(self, prog, out, ctx):
        t = self.table(ctx)
        bad = []
        if out.get("deadlock"):
            bad.append({"what": "a call waits forever"})
            return bad
        for r in out["setup"]:
            t, e = self.expect_op(t, r["op"])
        hist = list(out["hist"])
        m = max([r["ret"] for r in hist] or [0])
        for n, r in enumerate(out["final"]):
            hist.append(dict(r, inv=m + 1 + 2 * n, ret=m + 2 + 2 * n))
        for r in hist:
            v = r.get("v")
            if v and isinstance(v[0], list) and v[0][:1] in (["!"], ["!!"]):
                return [{"what": "a holiday call failed under concurrency", "op": r["op"], "got": v}]
        ok = lin_check(t, self.expect_op, hist)
        if ok is False:
            bad.append({"what": "no one-at-a-time order explains the results",
                        "history": [{"c": r["c"], "inv": r["inv"], "ret": r["ret"], "op": r["op"], "v": r["v"]} for r in hist]})
        return bad


@prop
class C09(HolidayCheck):
    """a correction struck by an exception is all or nothing"""
    id = "C09"

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        bb = dict(b, days=rng.sample(b["days"], min(len(b["days"]), rng.choice((2, 4, 6)))))
        if rng.random() < 0.4:
            prog["setup"] = [self.fixop(rng, bb, "s", 9)]
        nc = rng.choice((1, 1, 1, 2))
        for c in range(nc):
            ops = [self.fixop(rng, bb, "c%dn_" % c, 9)]
            while rng.random() < 0.5 and len(ops) < 4:
                ops.append(self.fixop(rng, bb, "c%dm%d_" % (c, len(ops)), 9) if rng.random() < 0.5 else self.lookup(rng, bb))
            prog["clients"].append(ops)
        for _ in range(rng.choice((1, 1, 2))):
            c = rng.randrange(nc)
            i = rng.choice([i for i, o in enumerate(prog["clients"][c]) if o[0].startswith("fix")])
            name = rng.choice(RAISES)
            s = self.site(rng, ctx, [], prog["clients"][c][i], "mem" if name in ("MemoryError", "RecursionError") else "exc")
            if s:
                prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["raise", name]})
        if nc > 1:
            self.switch_dirs(rng, ctx, prog, rng.choice((0, 1)))
        self.order(rng, prog)
        for d in bb["days"]:
            prog["final"].append(["q", {"c": "HolidayUtil.getHoliday", "a": [d], "p": []}])
        prog["final"].append(self.lookup(rng, bb))
        prog["final"].append(self.fixop(rng, bb, "f", 9))
        prog["final"] += [self.lookup(rng, bb) for _ in range(2)]
        prog["final"].append(["q", {"c": "HolidayUtil.getHoliday", "a": [bb["days"][0]], "p": []}])
        return prog

    def judge(self, prog, out, ctx):
        t = self.table(ctx)
        if out.get("deadlock"):
            return [{"what": "a call waits forever after an interrupted correction"}]
        for r in out["setup"]:
            t, e = self.expect_op(t, r["op"])
        hist = []
        for r in out["hist"]:
            v = r.get("v")
            exc = v and isinstance(v[0], list) and v[0][:1] in (["!"], ["!!"])
            if r.get("inj"):
                hist.append(dict(r, maybe=bool(exc)))
            elif exc:
                return [{"what": "an undisturbed holiday call failed", "op": r["op"], "got": v}]
            else:
                hist.append(r)
        m = max([r["ret"] for r in hist] or [0])
        for n, r in enumerate(out["final"]):
            v = r.get("v")
            if v and isinstance(v[0], list) and v[0][:1] in (["!"], ["!!"]):
                return [{"what": "a holiday call failed after an interrupted correction", "op": r["op"], "got": v}]
            hist.append(dict(r, inv=m + 1 + 2 * n, ret=m + 2 + 2 * n))
        ok = lin_check(t, self.expect_op, hist)
        if ok is False:
            return [{"what": "the interrupted correction is neither done nor undone",
                     "history": [{"c": r["c"], "inv": r["inv"], "ret": r["ret"], "op": r["op"], "v": r["v"], "inj": r.get("inj")} for r in hist]}]
        return []

    def nontrivial(self, prog, out):
        return any(f["act"][0] == "raise" for f in out["fired"])


@prop
class C10(HolidayCheck):
    """working-day stepping against the table in force at each moment of a history"""
    id = "C10"
    needs_hot = False

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": [], "order": []}
        ops = []
        for i in range(rng.choice((3, 6, 10, 16))):
            r = rng.random()
            if r < 0.35:
                ops.append(self.fixop(rng, b, "n%d_" % i, 9))
            else:
                d = rng.choice(b["days"])
                dt = datetime.date(int(d[:4]), int(d[4:6]), int(d[6:])) + datetime.timedelta(days=rng.randint(-4, 4))
                n = rng.choice((0, 1, -1, 2, -2, 3, 5, -6, 10, 22, -30))
                if rng.random() < 0.1:
                    n = rng.choice((60, -60, 250))
                ops.append(["q", {"c": "Solar.fromYmdHms", "a": [dt.year, dt.month, dt.day] + C.rnd_time(rng), "p": [[["next", n, True]]]}])
        if rng.random() < 0.3:
            prog["clients"] = [ops[0::2], ops[1::2]]
            self.order(rng, prog)
        else:
            prog["clients"] = [ops]
        return prog

    judge = C07.judge

    def nontrivial(self, prog, out):
        return any(o[0].startswith("fix") for c in prog["clients"] for o in c) and any(o[0] == "q" for c in prog["clients"] for o in c)


# =================================================================== C05
@prop
class C05(HolidayCheck):
    """fork while other callers are suspended inside calls"""
    id = "C05"

    def batch(self, rng, ctx):
        b = Check.batch(self, rng, ctx)
        h = HolidayCheck.batch(self, rng, ctx)
        b["hol"] = h
        return b

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        if rng.random() < 0.3:
            prog["setup"] += [["q", rng.choice(b["qs"])] for _ in range(rng.randint(1, 3))]
        nc = rng.choice((1, 1, 2, 3))
        for c in range(nc):
            prog["clients"].append([["q", rng.choice(b["qs"])] for _ in range(rng.choice((1, 1, 2)))])
        kid = [rng.choice(b["qs"]) for _ in range(rng.choice((1, 2, 3)))]
        r = rng.random()
        if r < 0.3:
            kid += [wide(rng), wide(rng)]
        elif r < 0.45:
            kid += [C.rnd_scan(rng), C.rnd_scan(rng)]
        hol = rng.random() < 0.3
        if hol:
            # corrections in the parent, under way when the child is made, and in the child
            h = dict(b["hol"], days=rng.sample(b["hol"]["days"], 3))
            for c in prog["clients"]:
                c[:] = [o for o in c if not touches_holidays(o[1])]
                for j in range(rng.choice((0, 1, 1, 2))):
                    c.insert(rng.randint(0, len(c)), self.fixop(rng, h, "p%dn%d_" % (len(c), j), 9) if rng.random() < 0.75 else self.lookup(rng, h))
            prog["setup"] = [o for o in prog["setup"] if not touches_holidays(o[1])]
            if not any(o[0] != "q" for c in prog["clients"] for o in c):
                prog["clients"][0].append(self.fixop(rng, h, "p", 9))
            kid = [q for q in kid if not touches_holidays(q)][:1]
            for j in range(rng.choice((1, 3, 5))):
                kid.append(self.fixop(rng, h, "k%d_" % j, 9) if rng.random() < 0.5 else self.lookup(rng, h)[1])
            kid += [self.lookup(rng, h)[1] for _ in range(2)]
            prog["final"] = [self.lookup(rng, h) for _ in range(2)]
        f = nc
        prog["clients"].append([["fork", kid] for _ in range(rng.choice((1, 1, 2)))])
        for _ in range(rng.choice((1, 2, 2, 3))):
            c = rng.randrange(nc)
            if not prog["clients"][c]:
                continue
            i = rng.randrange(len(prog["clients"][c]))
            if hol and rng.random() < 0.8:
                fx = [(c, i) for c in range(nc) for i, o in enumerate(prog["clients"][c]) if o[0] != "q"]
                if fx:
                    c, i = rng.choice(fx)
            s = self.site(rng, ctx, [], prog["clients"][c][i], "any")
            if s:
                prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2],
                                     "act": ["switch", f if rng.random() < 0.8 else rng.randrange(nc + 1)]})
        # the forker usually starts last, so that it is reached by preemption
        prog["order"] = [rng.choice((0, 1, 2)) for _ in range(30)] if rng.random() < 0.3 else [0] * 30
        if not hol:
            prog["final"] = [["q", rng.choice(b["qs"])] for _ in range(2)]
        return prog

    def judge(self, prog, out, ctx):
        # what involves no holidays: each answer is the one the request gets alone
        alone = lambda r: r["op"][0] == "q" and not touches_holidays(r["op"][1])
        fixes = [r for r in out["hist"] if r["op"][0].startswith("fix")]
        if not fixes and not any(isinstance(x, list) for r in out["hist"] if r["op"][0] == "fork" for x in r["op"][1]):
            return self.compare(prog, out, ctx)
        bad = self.compare(prog, {"deadlock": out.get("deadlock"), "setup": out["setup"], "final": [r for r in out["final"] if alone(r)],
                                  "hist": [r for r in out["hist"] if alone(r)]}, ctx)
        for r in out["hist"]:
            v = r.get("v")
            if not alone(r) and v and isinstance(v[0], list) and v[0][:1] == ["!!"]:
                bad.append({"what": "a call failed, or the forked child did not answer", "op": r["op"], "got": v})
        if bad:
            return bad
        m = max([r["ret"] for r in out["hist"]] or [0])
        par = [r for r in out["hist"] if r["op"][0] != "fork" and not alone(r)]
        par += [dict(r, inv=m + 1 + 2 * n, ret=m + 2 + 2 * n) for n, r in enumerate(out["final"]) if not alone(r)]
        if lin_check(self.table(ctx), self.expect_op, par) is False:
            bad.append({"what": "the parent's lookups do not fit its corrections", "history": par})
        for r in out["hist"]:
            if r["op"][0] != "fork":
                continue
            t = r["inv"]
            h = [x for x in fixes if x["ret"] < t] + [dict(x, ret=t, maybe=True) for x in fixes if x["inv"] < t < x["ret"]]
            for n, (q, v) in enumerate(zip(r["op"][1], r["v"])):
                o = ["q", q] if isinstance(q, dict) else q
                if alone({"op": o}):
                    e = ctx.refs.get(spelled(q, prog) if isinstance(q, dict) else q)
                    if e is not None and v != e:
                        bad.append({"what": "wrong answer in the forked child", "op": o, "got": v, "want": e})
                else:
                    h.append({"c": "child", "inv": t + (n + 1) / 1000, "ret": t + (n + 1.5) / 1000, "op": o, "v": v})
                    if v and isinstance(v[0], list) and v[0][:1] == ["!!"]:
                        bad.append({"what": "a call failed or waits forever in the forked child", "op": o, "got": v})
            if not bad and lin_check(self.table(ctx), self.expect_op, h) is False:
                bad.append({"what": "the child's lookups fit neither the corrections made before the fork nor its own",
                            "history": [{"c": x["c"], "inv": x["inv"], "ret": x["ret"], "op": x["op"], "v": x["v"], "maybe": x.get("maybe")} for x in h]})
        return bad

    def nontrivial(self, prog, out):
        return any(f["act"][0] == "switch" for f in out["fired"])


# =================================================================== C13
class Reg:
    """model of the chart's school setting"""

    def __init__(self, s=2):
        self.s = s

    def key(self):
        return self.s


@prop
class C13(Check):
    """one chart per lunar date, and the chosen school behaves like one shared register"""
    id = "C13"

    def batch(self, rng, ctx):
        ms = []
        for _ in range(4):
            t = C.rnd_moment(rng)
            t[3:] = [23, rng.randint(0, 59), rng.randint(0, 59)]
            t[2] = min(t[2], 27)
            ms.append(t)
        pool = C.Pool(rng, 2, None)
        return {"ms": ms, "qs": [pool.draw() for _ in range(4)], "pool": pool}

    # readings that consult the setting once, so that they are reads of the register
    ONCE = ("EightChar.getDay", "EightChar.getSect", "EightChar.getDayGan", "EightChar.getDayZhi", "EightChar.toString", "getBaZi")

    # other readings through the date or its chart: reads of the register too, unless a choice is made meanwhile
    VIA = ("getBaZiWuXing", "getBaZiNaYin", "getBaZiShiShenGan", "getBaZiShiShenZhi", "getBaZiShiShenYearZhi", "getBaZiShiShenMonthZhi",
           "getBaZiShiShenDayZhi", "getBaZiShiShenTimeZhi", "toFullString")

    def loose(self, rng):
        mine = [x for x in (CLASH[1].get("lunar") or ()) if x[0] == ["getEightChar"]] if CLASH else None
        if mine and rng.random() < 0.8:
            return rng.choice(mine)
        r = rng.random()
        if r < 0.4:
            m = rng.choice(self.VIA)
            if m in C.GETTERS["Lunar"]:
                return [[m]]
        if r < 0.9:
            return [["getEightChar"], [rng.choice(C.GETTERS["EightChar"])]]
        return [["getEightChar"], ["getYun", rng.randint(0, 1), rng.randint(1, 2)], [rng.choice(C.GETTERS["Yun"])]]

    @staticmethod
    def path(r):
        return [["getEightChar"], [r.split(".")[1]]] if "." in r else [[r]]

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        ns = rng.choice((1, 1, 2))
        for s in range(ns):
            t = rng.choice(b["ms"])
            if rng.random() < 0.5:
                prog["setup"].append(["new", "s%d" % s, {"c": "Solar.fromYmdHms", "a": t, "p": [[["getLunar"]]]}, "lunar"])
            else:
                a = [t[0], t[1], min(t[2], 28)] + t[3:]
                prog["setup"].append(["new", "s%d" % s, {"c": "Lunar.fromYmdHms", "a": a, "p": []}, "lunar"])
        if rng.random() < 0.3:
            prog["setup"].append(["sect", "s0", rng.choice((1, 2))])
        nc = rng.choice((2, 2, 3))
        vocab = [self.loose(rng) for _ in range(rng.choice((1, 2, 4)))]
        for c in range(nc):
            ops = []
            for _ in range(rng.choice((1, 2, 3, 4))):
                s = "s%d" % rng.randrange(ns)
                r = rng.random()
                if r < 0.35:
                    ops.append(["sect", s, rng.choice((1, 2))])
                elif r < 0.6:
                    ops.append(["ident", s, [["getEightChar"]]])
                elif r < 0.75:
                    ops.append(["rd", s, [self.path(rng.choice(self.ONCE))]])
                elif r < 0.92:
                    ops.append(["rd", s, [rng.choice(vocab)]])
                else:
                    ops.append(["q", rng.choice(b["qs"])])
            prog["clients"].append(ops)
        self.order(rng, prog)
        if rng.random() < 0.25:
            self.walk(rng, ctx, prog)
        else:
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 2, 2, 3, 4)))
        for s in range(ns):
            prog["final"] += [["ident", "s%d" % s, [["getEightChar"]]], ["rd", "s%d" % s, [self.path("EightChar.getSect")]],
                              ["rd", "s%d" % s, [self.path("EightChar.getDay")]], ["rd", "s%d" % s, [self.path("getBaZi")]]]
            prog["final"] += [["rd", "s%d" % s, [p]] for p in vocab]
        return prog

    def value(self, prog, slot, path, sect, ctx):
        """what a reading gives when the school is `sect`, on a lunar date of its own (single caller)"""
        for o in prog["setup"]:
            if o[0] == "new" and o[1] == slot:
                k = ("c13", json.dumps([o[2], path, sect]))
                if k not in ctx.clockrefs:
                    def f():
                        seams.CLOCK.reset()
                        l = C.build(o[2])
                        if o[2].get("p"):
                            l = C.follow(l, o[2]["p"][0])
                        ec = l.getEightChar()
                        ec.setSect(sect)
                        if path[0] == ["getEightChar"]:
                            return C.canon(C.follow(ec, path[1:]))
                        # readings through the lunar date are defined by the chart's own readers
                        if path[0] != ["getBaZi"]:
                            return C.canon(C.follow(l, path))
                        rd = {"getBaZi": ("getYear", "getMonth", "getDay", "getTime")}[path[0][0]]
                        return ["l"] + [C.canon(getattr(ec, m)()) for m in rd]
                    ctx.clockrefs[k] = E.in_fork(f, 30).get("ok")
                return ctx.clockrefs[k]

    def judge(self, prog, out, ctx):
        bad = []
        if out.get("deadlock"):
            return [{"what": "a call waits forever"}]
        slots = [o[1] for o in prog["setup"] if o[0] == "new"]
        if any(r["v"] != ["ok"] for r in out["setup"] if r["op"][0] == "new"):
            return []          # construction itself was refused: nothing shared
        allr = out["setup"] + out["hist"] + out["final"]
        once = [self.path(x) for x in self.ONCE]
        for r in allr:
            v = r.get("v")
            if r["op"][0] in ("ident", "sect", "rd") and v and isinstance(v[0], list) and v[0][:1] in (["!!"], ["!"]):
                bad.append({"what": "a chart call failed", "op": r["op"], "got": v})
        if bad:
            return bad
        for s in slots:
            ids = sorted({r["v"][0] for r in allr if r["op"][0] == "ident" and r["op"][1] == s})
            if len(ids) > 1:
                bad.append({"what": "two callers got different charts of the same lunar date", "slot": s,
                            "who": [(r["c"], r["i"], r["v"]) for r in allr if r["op"][0] == "ident" and r["op"][1] == s]})
            h = []
            m = max([r["ret"] for r in out["hist"]] or [0])
            init = self.slotref(prog, s, self.path("EightChar.getSect"), ctx)
            for r in out["setup"]:
                if r["op"][0] == "sect" and r["op"][1] == s:
                    init = r["op"][2]
            for r in out["hist"]:
                if r["op"][0] == "rd" and r["op"][1] == s and r["op"][2][0] not in once:
                    if any(x["op"][0] == "sect" and x["op"][1] == s and x["inv"] < r["ret"] and r["inv"] < x["ret"] for x in out["hist"]):
                        continue      # it may have looked at the setting before and after
                if r["op"][0] in ("sect", "rd") and r["op"][1] == s:
                    h.append(r)
            for n, r in enumerate(out["final"]):
                if r["op"][0] == "rd" and r["op"][1] == s:
                    h.append(dict(r, inv=m + 1 + 2 * n, ret=m + 2 + 2 * n))

            def apply(st, o):
                if o[0] == "sect":
                    return Reg(o[2]), ["ok"]
                return st, [self.value(prog, s, o[2][0], st.s, ctx)]
            if lin_check(Reg(init), apply, h, norm=lambda v: v) is False:
                bad.append({"what": "no order of the choices explains the readings", "slot": s,
                            "history": [{"c": r["c"], "inv": r["inv"], "ret": r["ret"], "op": r["op"], "v": r["v"]} for r in h]})
        for r in out["hist"]:
            if r["op"][0] == "q":
                e = ctx.refs.get(r["op"][1])
                if e is not None and r["v"] != e:
                    bad.append({"what": "answer differs from the answer alone", "op": r["op"], "got": r["v"], "want": e})
        return bad


# =================================================================== C15
@prop
class C15(Check):
    """objects copied, pickled, sent to and received from another process at any moment"""
    id = "C15"
    companion = True

    HOW = ("deepcopy", "pickle:2", "pickle:4", "pickle:5", "deepcopy", "pickle:4", "pickle:3", "pickle:1", "pickle:0")
    SETS = {"holiday": (["setName", "某日"], ["setWork", True], ["setWork", False], ["setDay", "2020-01-01"], ["setTarget", "2020-01-02"], ["setDay", "1999-09-09"]),
            "jieqi": (["setName", "冬至"], ["setName", "立春"]), "fu": (["setName", "某"], ["setIndex", 77]), "shujiu": (["setName", "某"], ["setIndex", 77])}

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": []}
        prog["setup"] = shared_slots(rng, b, rng.choice((1, 1, 2)))
        slots = list(prog["setup"])
        fixes = []
        for o in slots:
            sets = self.SETS.get(o[3])
            if sets and rng.random() < 0.5:
                # what the caller has set on a record goes along with it
                o[2]["p"] = [o[2]["p"][0] + [["!"] + rng.choice(sets) for _ in range(rng.choice((1, 1, 2)))]]
            elif o[3] == "holiday" and rng.random() < 0.5:
                d = ctx.refs.get(dict(o[2], p=[o[2]["p"][0] + [["getDay"]]]))
                if d and isinstance(d[0], str) and len(d[0]) == 10:
                    d = d[0].replace("-", "")
                    fixes.append(["fix", None, d + rng.choice(("~0", "80", "11", "21")) + d])
        for o in slots:
            if rng.random() < 0.3:
                o.append(rng.choice(self.HOW + ("recv:4", "recv:2", "recv:5", "recv:4")))
                if o[4].startswith("recv") and rng.random() < 0.7:
                    o.append(slot_paths(rng, o[3], rng.choice((1, 3, 6))))
        prog["setup"] += fixes
        if rng.random() < 0.3 and not fixes:
            prog["setup"] += [["q", rng.choice(b["qs"])] for _ in range(rng.randint(1, 3))]
        nc = rng.choice((1, 1, 2, 2, 3))
        vocab = {o[1]: slot_paths(rng, o[3], rng.choice((2, 4, 8))) for o in slots}
        school = nc == 1 and rng.random() < 0.5
        n = 0
        for c in range(nc):
            ops, mine = [], []
            for _ in range(rng.choice((2, 3, 5, 8))):
                o = rng.choice(slots)
                name = o[1]
                if mine and rng.random() < 0.5:
                    name, o = rng.choice(mine)
                ps = vocab[o[1]]
                r = rng.random()
                if r < 0.35:
                    ops.append(["rd", name, rng.sample(ps, min(len(ps), rng.choice((1, 1, 2, 3))))])
                elif r < 0.45 and not fixes:
                    ops.append(["q", rng.choice(b["qs"])])
                elif r < 0.50 and o[3] == "lunar":
                    ops.append(["together", name, rng.choice(self.HOW)])
                elif r < 0.60 and school and o[3] in ("lunar", "eight"):
                    ops.append(["pick", name, rng.choice((1, 1, 2))])
                elif r < 0.80:
                    n += 1
                    new = "%s~%d" % (o[1], n)
                    ops.append(["copy", name, rng.choice(self.HOW + (() if school else ("shallow", "shallow"))), new])
                    mine.append((new, o))
                else:
                    ops.append(["send", name, rng.sample(ps, min(len(ps), rng.choice((1, 2, 3)))), rng.choice((2, 4, 4, 5))])
            for name, o in mine[-2:]:
                ops.append(["rd", name, rng.sample(vocab[o[1]], min(len(vocab[o[1]]), 3))])
            prog["clients"].append(ops)
        if school:
            # readings through the chart only: what else the date says about it is C13's business
            for ops in prog["clients"]:
                for x in ops:
                    if x[0] in ("rd", "send"):
                        k = next(o[3] for o in slots if o[1] == x[1].split("~")[0])
                        if k == "lunar":
                            x[2] = [[["getEightChar"], [rng.choice(C.GETTERS["EightChar"])]] for _ in x[2]]
            prog["school"] = 1
        if nc > 1:
            self.switch_dirs(rng, ctx, prog, rng.choice((1, 1, 2, 3)))
        if rng.random() < 0.3:
            rd = [(c, i) for c in range(nc) for i, o in enumerate(prog["clients"][c]) if o[0] == "rd" and "~" not in o[1]]
            if rd:
                c, i = rng.choice(rd)
                name = rng.choice(RAISES)
                s = self.site(rng, ctx, self.slot_setup(prog), prog["clients"][c][i], "mem" if name in ("MemoryError", "RecursionError") else "exc")
                if s:
                    prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["raise", name]})
        self.order(rng, prog)
        if not school:
            for o in slots:
                prog["final"].append(["send", o[1], vocab[o[1]][:4], 4])
                prog["final"].append(["copy", o[1], rng.choice(self.HOW), o[1] + "~f"])
                prog["final"].append(["rd", o[1] + "~f", vocab[o[1]][:6]])
        return prog

    def judge(self, prog, out, ctx):
        allr = out["setup"] + out["hist"] + out["final"]
        if any(r["v"] != ["ok"] and r["op"][0] == "new" and not (r["v"] and isinstance(r["v"][0], list) and r["v"][0][0] == "!!") and
               (len(r["op"]) < 5 or self.refused(r["op"][2], ctx)) for r in out["setup"]):
            return []          # construction itself was refused
        bad = []
        for r in allr:
            if r["op"][0] == "new" and r["v"] != ["ok"]:
                bad.append({"what": "an object could not be copied or received", "op": r["op"], "got": r["v"]})
            elif r["op"][0] == "together" and r["v"] not in (["noslot"], [True, True]) and not r.get("inj"):
                bad.append({"what": "a date and its chart copied together no longer belong together", "op": r["op"], "got": r["v"]})
        if bad:
            return bad
        if not prog.get("school"):
            return self.compare(prog, out, ctx, relaxed=True)
        # one caller: the school of each object, copied along with it, but each object's own
        bad = self.compare(prog, dict(out, hist=[r for r in out["hist"] if r["op"][0] not in ("rd", "send")]), ctx, relaxed=True)
        sect = {}
        for r in out["hist"]:
            o = r["op"]
            if o[0] == "pick" and r["v"] == ["ok"]:
                sect[o[1]] = o[2]
            elif o[0] == "copy" and o[1] in sect:
                sect[o[3]] = sect[o[1]]
            elif o[0] in ("rd", "send") and r["v"] != ["noslot"]:
                kind = next(x[3] for x in prog["setup"] if x[0] == "new" and x[1] == o[1].split("~")[0])
                e = []
                for p in o[2]:
                    if o[1] in sect and kind in ("lunar", "eight"):
                        pick = ["!", "setSect", sect[o[1]]]
                        p = p[:1] + [pick] + p[1:] if kind == "lunar" else [pick] + p
                    e.append(self.slotref(prog, o[1], p, ctx))
                self.cmp1(bad, r, r["v"], e, True)
        return bad

    def refused(self, q, ctx):
        r = ctx.refs.get({"c": q["c"], "a": q["a"], "p": q.get("p", [])[:1]})
        return bool(r) and C.is_exc(r[0])

    def nontrivial(self, prog, out):
        return any(r["op"][0] in ("copy", "send", "together") or len(r["op"]) > 4 for r in out["setup"] + out["hist"] + out["final"])


# =================================================================== C16
@prop
class C16(Check):
    """long histories: what the library keeps, and what one more request costs, stay bounded"""
    id = "C16"
    batch_size = 1
    needs_hot = False
    HEAVY = ("s2l", "lunar", "eight", "yun", "dayun", "lyear", "lmonth", "foto", "tao", "ltime", "years")
    SHAPES = [k for k in C.KINDS if k not in ("bazi", "bad", "nine")] + ["years", "years", "bad"]
    HELD = ("Solar", "SolarWeek", "SolarMonth", "LunarYear", "SolarYear", "SolarSeason", "SolarHalfYear", "Lunar", "Yun")

    def plan(self):
        """(shape, mode), in the order the batches take them"""
        out = [(s, "plain") for s in self.SHAPES] + [("fix", "fix")]
        out += [("u:" + f, "plain") for f in sorted(set(C.UTIL)) if f != "NineStar.fromIndex"]
        out += [(s, "held") for s in self.HELD]
        out += [(s, "reread") for s in ("Lunar", "EightChar", "Solar", "Yun", "DaYun", "LiuNian", "LunarYear", "LunarMonth", "Foto", "Tao", "LunarTime", "SolarWeek")]
        out += [(s, "same") for s in ("years", "s2l", "lunar", "lyear", "lmonth", "eight", "week", "hol", "hols", "work", "solar", "foto", "tao", "bad")]
        out += [(s, m) for s in ("years", "solar", "hol") for m in ("threads", "named")]
        out += [(s, "short") for s in ("years", "s2l", "eight", "foto", "hols", "work", "sxu")]
        return out

    def batch(self, rng, ctx):
        return {"qs": []}

    def make(self, rng, b, ctx):
        plan = self.plan()
        shape, mode = plan[ctx.bno % len(plan)]
        n = 400 if (shape, mode) in (("Lunar", "held"), ("LunarYear", "held")) else 1500 if shape in self.HEAVY else 2500
        if ctx.bno >= 2 * len(plan):
            n *= rng.choice((1, 2))
        return {"env": {}, "setup": [], "dirs": [], "final": [], "clients": [[["meter", shape, rng.randrange(1 << 20), n, mode]]]}

    def judge(self, prog, out, ctx):
        bad = []
        for r in out["hist"]:
            if r["op"][0] != "meter":
                continue
            v, n = r["v"], r["op"][3]
            if len(v) != 3:
                bad.append({"what": "a long history could not be run", "op": r["op"], "got": v})
                continue
            (b1, m1, s1), (b2, m2, s2), (b3, m3, s3) = v

            def steady(a, b, c, per):
                return b - a >= per * n and c - b >= per * n and c - b >= 0.85 * (b - a)
            if steady(b1, b2, b3, 0.3):
                bad.append({"what": "memory in use grows with the number of requests", "op": r["op"], "blocks": [b1, b2, b3], "requests_between": n})
            elif steady(m1, m2, m3, 1):
                bad.append({"what": "what the library keeps grows with the number of requests", "op": r["op"], "bytes": [m1, m2, m3], "requests_between": n})
            elif steady(s1, s2, s3, 0.8):
                bad.append({"what": "the work for one more request grows with the number of requests", "op": r["op"], "instructions": [s1, s2, s3], "requests_between": n})
        return bad

    def nontrivial(self, prog, out):
        return True


# =================================================================== C17
def handed(rng):
    """a request given an object of the caller's as an argument"""
    r = rng.random()
    v = C.edge_moment(rng) if r < 0.2 else C.rnd_moment(rng)
    if r > 0.6:
        v[3:] = [rng.choice((0, 23, 23, 12, rng.randint(0, 23))), rng.choice((0, 59, rng.randint(0, 59))), rng.choice((0, 59, 59, rng.randint(0, 59)))]
    o = {"q": {"c": "Solar.fromYmdHms", "a": v}}
    c = rng.choice(("Lunar.fromSolar", "Lunar.fromSolar", "Solar", "Foto.fromLunar", "Tao.fromLunar", "EightChar.fromLunar"))
    if c == "Solar":
        w = C.vary_moment(rng, v)
        return {"c": "Solar.fromYmdHms", "a": w, "p": [[[x, o]] for x in ("subtract", "subtractMinute", "isAfter", "isBefore")]}
    if c != "Lunar.fromSolar":
        o["q"]["p"] = [[["getLunar"]]]
        return {"c": c, "a": [o], "p": C.some(rng, c.split(".")[0], 2)}
    return {"c": c, "a": [o], "p": C.lunar_paths(rng, 2)}


@prop
class C17(Check):
    """the rest of the process, looked at during, between and after calls, cut short or not, stays as it was"""
    id = "C17"

    def __init__(self):
        from . import outside     # noqa: F401  (its imports must not count as the library's)

    def make(self, rng, b, ctx):
        if rng.random() < 0.5:
            nc = rng.choice((1, 1, 2))
            r0 = rng.random()

            def act(c, o, paths):
                r = rng.random()
                if r < 0.2 and nc > 1:
                    return ["switch", rng.randrange(nc)]
                return ["raise", rng.choice(RAISES)] if r < r0 else ["look"]
            prog = self.dense(rng, b, ctx, rng.choice((15, 40)), act, nc)
            for ops in prog["clients"]:
                ops.append(["look"])
        else:
            prog = {"env": {}, "setup": shared_slots(rng, b, rng.choice((0, 0, 1, 1))), "clients": [], "dirs": [], "final": []}
            slots = list(prog["setup"])
            nc = rng.choice((1, 1, 2))
            for c in range(nc):
                ops = []
                for _ in range(rng.choice((2, 4, 8))):
                    r = rng.random()
                    if slots and r < 0.25:
                        ops.append(rd_op(rng, slots))
                    elif r < 0.35:
                        ops.append(["q", handed(rng)])
                    elif r < 0.42:
                        ops.append(["q", C.bad_query(rng)])
                    elif r < 0.48:
                        ops.append(["fixarg", ["N%d" % i for i in range(rng.choice((0, 1, 2, 5, 8, 9, 12, 40)))], rng.choice((None, "202002102020200210", "203103011020310301", "20010101"))])
                    elif r < 0.6:
                        ops.append(["q", C.gen_query(rng, C.rnd_moment(rng))])
                    else:
                        ops.append(["q", rng.choice(b["qs"])])
                prog["clients"].append(ops)
            for _ in range(rng.choice((2, 4, 8))):
                c = rng.randrange(nc)
                i = rng.randrange(len(prog["clients"][c]))
                raising = rng.random() < 0.5
                name = rng.choice(RAISES)
                s = self.site(rng, ctx, self.slot_setup(prog), prog["clients"][c][i],
                              "any" if not raising else "mem" if name in ("MemoryError", "RecursionError") else "exc")
                if s:
                    prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["raise", name] if raising else ["look"]})
            if nc > 1:
                self.switch_dirs(rng, ctx, prog, rng.choice((1, 2)))
            # what the caller sees between its calls
            for c, ops in enumerate(prog["clients"]):
                out, at = [], {}
                for i, o in enumerate(ops):
                    at[i] = len(out)
                    out += [o, ["look"]]
                prog["clients"][c] = out
                for d in prog["dirs"]:
                    if d["c"] == c:
                        d["op"] = at[d["op"]]
            self.order(rng, prog)
        prog["setup"] = prog["setup"] + [["watch"]]
        prog["final"] = [["look", "end"]]
        return prog

    def judge(self, prog, out, ctx):
        bad = []
        for d in out.get("outside") or ():
            x = d["diff"][0]
            bad.append({"what": "a call changed what is not the library's: " + str(x[0]), "got": d})
        return bad

    def nontrivial(self, prog, out):
        return any(f["act"][0] in ("raise", "look") for f in out["fired"])


# =================================================================== C11
def ts_of(y, mo=7, d=1, h=12, mi=0, s=0):
    return (datetime.datetime(y, mo, d, h, mi, s) - datetime.datetime(1970, 1, 1)).total_seconds()


def year_of(ts):
    return seams._local_naive(ts).year


PILLARS = {1: ["getYearInGanZhiExact", "getMonthInGanZhiExact", "getDayInGanZhiExact", "getTimeInGanZhi"],
           2: ["getYearInGanZhiExact", "getMonthInGanZhiExact", "getDayInGanZhiExact2", "getTimeInGanZhi"]}


def abs_minutes(s):
    """minutes on one count of days, from 'yyyy-mm-dd hh:mm:ss' (for comparing two-hour periods)"""
    y, m, d = int(s[:-15]), int(s[-14:-12]), int(s[-11:-9])
    h, mi = int(s[-8:-6]), int(s[-5:-3])
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    jd = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    greg = (y, m, d) >= (1582, 10, 15)
    if greg:
        jd = jd - yy // 100 + yy // 400 - 32045
    else:
        jd = jd - 32083
    return jd * 1440 + h * 60 + mi


@prop
class C11(Check):
    """reverse lookup under a moving clock"""
    id = "C11"
    batch_size = 5
    needs_hot = True

    def batch(self, rng, ctx):
        pool = C.Pool(rng, 1, ("s2l", "lunar", "lyear"))
        return {"qs": [pool.draw() for _ in range(3)], "pool": pool}

    def pillars(self, m, sect, ctx):
        q = {"c": "Solar.fromYmdHms", "a": m, "p": [[["getLunar"], [x]] for x in PILLARS[sect]]}
        return ctx.refs.get(q)

    def jie(self, y, ctx):
        """moments of the month terms of a year (from the library itself)"""
        q = {"c": "Lunar.fromYmd", "a": [y, 6, 1], "p": [[["getJieQiTable"]]]}
        r = ctx.refs.get(q)
        if not r or r[0][:1] != ["d"]:
            return []
        return [x[1][2] for x in r[0][1:]][1::2]

    def moment(self, rng, ctx):
        r = rng.random()
        lo, hi = (1901, 2100) if r < 0.8 else (100, 2600)
        y = rng.randint(lo, hi)
        r = rng.random()
        if r < 0.5:
            js = self.jie(y, ctx)
            if js:
                s = rng.choice(js)
                dt = datetime.datetime(int(s[:-15]), int(s[-14:-12]), int(s[-11:-9]), int(s[-8:-6]), int(s[-5:-3]), int(s[-2:]))
                dt += datetime.timedelta(seconds=rng.choice((0, 1, -1, 2, -2, 60, -60, 600, -600, 1800, -1800, 3599, -3599, 7000, -7000,
                                                             rng.randint(-7200, 7200), rng.randint(-86400, 86400))))
                return [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second]
        if r < 0.65:
            return [y, rng.choice((1, 2, 12)), rng.randint(1, 28)] + C.rnd_time(rng)
        mo = rng.randint(1, 12)
        return [y, mo, C.fix_day(y, mo, rng.randint(1, 31))] + C.rnd_time(rng)

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [], "clients": [], "dirs": [], "final": [], "facts": []}
        calls = []
        nm = rng.choice((1, 1, 2))
        for _ in range(nm):
            m = self.moment(rng, ctx)
            sect = rng.choice((1, 2))
            p = self.pillars(m, sect, ctx)
            if not p or any(C.is_exc(x) for x in p):
                continue
            r = rng.random()
            if m[0] > 1850 and r < 0.35:
                base = 1900
            else:
                base = m[0] + rng.choice((-1, -1, -2, -10, -58, -59, -60, -61, -62, 0, 1))
            base = max(1, base)
            style = rng.random()
            args = list(p) + ([] if sect == 2 and base == 1900 and style < 0.3 else [sect] if base == 1900 and style < 0.6 else [sect, base])
            calls.append((m, sect, base, {"c": "Solar.fromBaZi", "a": args, "p": []}))
        if not calls:
            calls.append(([2000, 1, 1, 0, 0, 0], 2, 1990, {"c": "Solar.fromBaZi", "a": self.pillars([2000, 1, 1, 0, 0, 0], 2, ctx) + [2, 1990], "p": []}))
        ops = []
        m0 = calls[0][0]
        ys = [m0[0], m0[0] + 1, m0[0] - 1, m0[0] + rng.choice((59, 60, 61)), m0[0] + 2, 2024, 2026]
        ys = [y for y in ys if y - m0[0] < 300 and y >= 1]
        n = rng.choice((2, 3, 4))
        seq = [rng.choice(ys) for _ in range(n)]
        if rng.random() < 0.5:
            seq.sort()
        prog["env"]["clock"] = ts_of(seq[0])
        for y in seq:
            r = rng.random()
            if r < 0.5:
                ops.append(["clockset", ts_of(y)])
            elif r < 0.75:
                ops.append(["clockset", ts_of(y, 12, 31, 23, 59, 59) + rng.choice((0, 1, 2, -43200, 43200))])
            else:
                ops.append(["clockset", ts_of(y, 1, 1, 0, 0, 0) + rng.choice((0, -1, 1, 3600 * 5))])
            if rng.random() < 0.4:
                # the clock jumps while the call is under way
                k = rng.choice((0, 1, 1, 2, 3))
                ops.append(["plan", {str(k): ["abs", ts_of(rng.choice(ys))]}])
            if rng.random() < 0.15:
                ops.append(["q", rng.choice(b["qs"])])
            m, sect, base, q = rng.choice(calls)
            ops.append(["cq", q])
            prog["facts"].append([C.key(q), m, sect, base])
        if rng.random() < 0.2:
            prog["clients"] = [ops, [["cq", rng.choice(calls)[3]]]]
            m, sect, base, q = calls[-1]
            for m, sect, base, q in calls:
                prog["facts"].append([C.key(q), m, sect, base])
            self.order(rng, prog)
            s = self.site(rng, ctx, [], ops[-1], "any")
            if s:
                prog["dirs"].append({"c": 0, "op": len(ops) - 1, "code": s[0], "off": s[1], "occ": s[2], "act": ["switch", 1]})
        else:
            prog["clients"] = [ops]
        return prog

    def judge(self, prog, out, ctx):
        bad = []
        facts = {}
        for k, m, sect, base in prog["facts"]:
            facts.setdefault(k, []).append((m, sect, base))
        seen_years = {}
        for r in out["hist"]:
            o = r["op"]
            if o[0] == "q":
                e = ctx.refs.get(o[1])
                if e is not None and r["v"] != e:
                    bad.append({"what": "answer differs from the answer alone", "op": o, "got": r["v"], "want": e})
            if o[0] != "cq":
                continue
            v = r["v"]
            shown = sorted({year_of(t) for t in r.get("clk", [])} | ({year_of(r["clk0"])} if not r.get("clk") else set()))
            es = {y: ctx.clockref(o[1], ts_of(y)) for y in shown}
            if any(e is None for e in es.values()):
                continue
            k = C.key(o[1])
            seen_years.setdefault(k, set()).update(shown)
            if v not in es.values():
                bad.append({"what": "the result is not the one for a year the clock showed during the call", "op": o, "years": shown,
                            "got": v, "want": [[y, e] for y, e in sorted(es.items())]})
                continue
            if not v or not isinstance(v[0], list) or v[0][:1] != ["l"]:
                bad.append({"what": "not a list of moments", "op": o, "got": v})
                continue
            res = [x[2] for x in v[0][1:]]
            for m, sect, base in facts.get(k, []):
                if any(abs_minutes(a) >= abs_minutes(b_) for a, b_ in zip(res, res[1:])):
                    bad.append({"what": "results are not strictly ascending", "op": o, "got": res})
                for s in res:
                    mm = [int(s[:-15]), int(s[-14:-12]), int(s[-11:-9]), int(s[-8:-6]), int(s[-5:-3]), int(s[-2:])]
                    if mm[0] < base:
                        bad.append({"what": "a result lies before the base year", "op": o, "got": s})
                    if self.pillars(mm, sect, ctx) != o[1]["a"][:4]:
                        bad.append({"what": "a result has other characters than requested", "op": o, "got": s, "pillars": self.pillars(mm, sect, ctx)})
                if base < m[0] <= min(shown):
                    want = (abs_minutes("%d-%02d-%02d %02d:%02d:%02d" % tuple(m)) + 60) // 120
                    if not any((abs_minutes(s) + 60) // 120 == want for s in res):
                        bad.append({"what": "the moment's own period is missing", "op": o, "moment": m, "got": res, "years": shown})
            if bad:
                break
        for k, ys in seen_years.items():
            q = json.loads(k)
            ys = sorted(ys)
            for a, b_ in zip(ys, ys[1:]):
                ra, rb = ctx.clockref(q, ts_of(a)), ctx.clockref(q, ts_of(b_))
                if ra and rb and ra[0][:1] == ["l"] and rb[0][:1] == ["l"] and rb[0][:len(ra[0])] != ra[0]:
                    bad.append({"what": "a later clock changed earlier results", "q": q, "years": [a, b_], "got": [ra, rb]})
        return bad

    def nontrivial(self, prog, out):
        return len({json.dumps(o) for c in prog["clients"] for o in c if o[0] == "clockset"}) > 1 or out["clockjumps"] > 0


# =================================================================== C18
COLD = [["unload"]]


@prop
class C18(Check):
    """the first import: from several threads, cut short and tried again, with files that cannot be read"""
    id = "C18"
    needs_hot = False
    cold = True

    # (a submodule asked for by its own name while another thread imports the package: CPython may report a deadlock of
    # its import locks, whatever the library does; those statements are left to programs of one thread)
    TOGETHER = ("import lunar_python", "from lunar_python import %s", "from lunar_python import *", "import lunar_python as lp\nlunar_python = lp",
                "import importlib\nlunar_python = importlib.import_module('lunar_python')")
    ALONE = ("from lunar_python.%s import %s", "import lunar_python.%s", "import lunar_python.util", "from lunar_python.util import LunarUtil as _",
             "from lunar_python.eightchar import Yun as _", "import lunar_python.eightchar.DaYun", "from lunar_python.util.HolidayUtil import HolidayUtil as _")

    def imp(self, rng, alone):
        ns = rng.sample(C.TOP, rng.choice((1, 2, 5)))
        if alone and rng.random() < 0.4:
            s = rng.choice(self.ALONE)
            if s.count("%s"):
                s = s % ((ns[0],) * s.count("%s"))
            if s.startswith("from"):
                s += "\nimport lunar_python"
            return ["imp", s, ns if "%s" not in s else ns[:1]]
        s = rng.choice(self.TOGETHER)
        return ["imp", s % ", ".join(ns) if "%s" in s else s, sorted(C.TOP) if rng.random() < 0.3 and "%s" not in s else ns]

    def ready(self, rng, ctx):
        """code that runs while the library is imported"""
        return ctx.reach.of_op(COLD, ["imp", "import lunar_python", ["Solar"]])

    def place(self, rng, ctx, op, mode):
        if rng.random() < 0.15:
            return self.site(rng, ctx, COLD, op, mode)
        r = self.ready(rng, ctx)
        eff = [k for k in sorted(r) if E.info(k).effects & set(dict(r[k]))]
        if eff and rng.random() < 0.5:
            # during or after something done once at import that is more than making a class or a table
            k = rng.choice(eff)
            ci = E.info(k)
            offs = dict(r[k])
            ok = [o for o in sorted(offs) if mode == "any" or o in (ci.exc_any if mode == "exc" else ci.exc_mem)]
            near = [o for o in ok if o in ci.effects]
            late = [o for o in ok if o > min(ci.effects)]
            cand = near if near and rng.random() < 0.6 else late
            if cand:
                off = rng.choice(cand)
                return k, off, rng.randint(1, offs[off])
        for _ in range(8):
            k = rng.choice(sorted(r)) if rng.random() < 0.5 else rng.choices(sorted(r), [len(r[x]) for x in sorted(r)])[0]
            if rng.random() < 0.2 and "__init__.py:<module>:1" in r:
                k = rng.choice([x for x in sorted(r) if x.endswith("__init__.py:<module>:1")])
            ci = E.info(k)
            offs = dict(r[k])
            cand = sorted(offs) if mode == "any" else sorted(o for o in offs if o in (ci.exc_any if mode == "exc" else ci.exc_mem))
            if cand:
                off = rng.choice(cand)
                return k, off, 1 if rng.random() < 0.6 else rng.randint(1, offs[off])
        return None

    def make(self, rng, b, ctx):
        prog = {"env": {}, "setup": [["unload"]], "clients": [], "dirs": [], "final": []}
        nc = rng.choice((1, 1, 2, 2, 3))
        for c in range(nc):
            ops = []
            for i in range(rng.choice((1, 2, 3, 4))):
                ops.append(self.imp(rng, nc == 1) if rng.random() < (0.55 if i < 2 else 0.2) else ["q", rng.choice(b["qs"])])
            prog["clients"].append(ops)
        r = rng.random()
        if r < 0.15:
            prog["setup"] = [["unload", rng.randint(1, 34), rng.choice(("OSError", "EMFILE", "MemoryError", "KeyboardInterrupt"))]]
        elif r < 0.7:
            for _ in range(rng.choice((1, 1, 2, 3))):
                c = rng.randrange(nc)
                i = rng.randrange(min(2, len(prog["clients"][c])))
                name = rng.choice(RAISES)
                s = self.place(rng, ctx, prog["clients"][c][i], "mem" if name in ("MemoryError", "RecursionError") else "exc")
                if s:
                    prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2], "act": ["raise", name]})
        if nc > 1:
            for _ in range(rng.choice((1, 2, 3, 5))):
                c = rng.randrange(nc)
                i = rng.randrange(min(2, len(prog["clients"][c])))
                s = self.place(rng, ctx, prog["clients"][c][i], "any")
                if s:
                    prog["dirs"].append({"c": c, "op": i, "code": s[0], "off": s[1], "occ": s[2],
                                         "act": ["switch", rng.choice([x for x in range(nc) if x != c])]})
        self.order(rng, prog)
        prog["final"] = [["imp", "import lunar_python", sorted(C.TOP)]] + [["q", rng.choice(b["qs"])] for _ in range(rng.choice((2, 4, 6)))]
        if rng.random() < 0.3:
            prog["final"].append(["q", wide(rng)])
        prog["final"].append(["q", {"c": "#.tables", "a": [rng.randint(0, 3)], "p": []}])
        if rng.random() < 0.5:
            prog["final"].append(["q", {"c": "#.year", "a": [rng.choice((2021, 1990))], "p": []}])
        return prog

    def judge(self, prog, out, ctx):
        bad = []
        failing = len(prog["setup"][0]) > 1 if prog["setup"] else False
        struck = [r for r in out["hist"] if r.get("inj")]
        if out.get("deadlock"):
            bad.append({"what": "an import or call waits forever", "where": [(r["c"], r["i"], r["op"]) for r in out["hist"]
                                                                           if "SimDeadlock" in str(r.get("v"))][:3]})
        ids = {}
        for r in out["hist"] + out["final"]:
            o = r["op"]
            v = r.get("v") or []
            # a call that ran while an import was being cut short may have been waiting for that very import
            loose = r["c"] >= 0 and (failing or any(s["inv"] < r.get("ret", 1 << 60) and r["inv"] < s.get("ret", 1 << 60) for s in struck))
            if o[0] == "q":
                e = ctx.refs.get(spelled(o[1], prog))
                if e is None or v == e:
                    continue
                if loose and any(C.is_exc(x) or isinstance(x, list) and x[:1] == ["!!"] for x in v) and all(
                        C.is_exc(x) or isinstance(x, list) and x[:1] == ["!!"] or x in e for x in v):
                    continue
                bad.append({"what": "wrong answer after the library was first imported", "op": o, "got": v, "want": e})
            elif o[0] == "imp":
                if loose:
                    continue        # (CPython may give one that waited for a failed import the half-made package)
                if v and isinstance(v[0], list) and v[0][:1] == ["!!"]:
                    bad.append({"what": "an import does not succeed", "op": o, "got": v})
                    continue
                for n, kind, i in v:
                    if kind != "class":
                        bad.append({"what": "a public name is not what it should be", "op": o, "got": [n, kind]})
                    if ids.setdefault(n, i) != i:
                        bad.append({"what": "a public name is different things for different callers", "op": o, "got": n})
        return bad

    def nontrivial(self, prog, out):
        return bool(out["fired"]) or len(prog["setup"][0]) > 1
