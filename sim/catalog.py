"""Requests: how they are written (JSON), generated, evaluated and their answers serialised.

A request is {"c": constructor, "a": args, "p": [path, ...]}; a path is a list of steps
[method, *args]; ["#", i] indexes a list, ["@", key] a dict.  Evaluating a request gives one
canonical value per path (an exception is a value too).  Arguments may themselves be requests
({"q": request}), or datetimes ({"dt": [...]}).
Only public methods are used, and answers are compared by public readings, so renaming or
restructuring private parts of the library does not matter.
"""
import inspect
import json
import datetime
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "special.json"), encoding="utf-8") as _f:
    SPECIAL = json.load(_f)     # calendar edges to place requests at (inputs only)
CLS = {}
MAXITEMS = 400


TOP = ("Solar Lunar LunarYear LunarMonth LunarTime SolarWeek SolarMonth SolarSeason SolarHalfYear "
       "SolarYear JieQi NineStar EightChar ShuJiu Fu Holiday Foto FotoFestival Tao TaoFestival").split()


def bind(root):
    """Find the public classes; called once after seams.load()."""
    import lunar_python as lp
    from lunar_python import util as u
    from lunar_python import eightchar as e
    for n in TOP:
        CLS[n] = getattr(lp, n)
    for n in "HolidayUtil ShouXingUtil SolarUtil LunarUtil FotoUtil TaoUtil".split():
        CLS[n] = getattr(u, n)
    for n in "Yun DaYun LiuNian LiuYue XiaoYun".split():
        CLS[n] = getattr(e, n)
    _reflect()


class Live(dict):
    """the public classes as a program gets them that imports the library when it first needs it"""

    def __getitem__(self, n):
        import importlib
        lp = importlib.import_module("lunar_python")
        if n in TOP:
            return getattr(lp, n)
        return getattr(importlib.import_module("lunar_python.util" if n.endswith("Util") else "lunar_python.eightchar"), n)

    def get(self, n, default=None):
        return self[n]


GETTERS = {}   # class -> names of public readers callable without arguments
PARAMS = {}    # (class, reader) -> its optional parameters: (name, default)
_HEAVY = {"Lunar": {"getTimes", "toFullString", "getOtherFestivals"}}


def _reflect():
    for n, c in CLS.items():
        if n.endswith("Util"):
            continue
        out = []
        for m in sorted(dir(c)):
            if m.startswith("_") or not (m.startswith("get") or m.startswith("is") or m.startswith("to")):
                continue
            f = inspect.getattr_static(c, m)
            if isinstance(f, (staticmethod, classmethod)):
                continue
            f = getattr(c, m)
            try:
                ps = list(inspect.signature(f).parameters.values())
            except (TypeError, ValueError):
                continue
            if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps[1:]):
                out.append(m)
            PARAMS[(n, m)] = [(p.name, None if p.default is p.empty else p.default) for p in ps[1:] if p.kind == p.POSITIONAL_OR_KEYWORD]
        GETTERS[n] = out


# --------------------------------------------------------------- canonical values
SUMMARY = {
    "Solar": ("toYmdHms",),
    "Lunar": ("toString", "getYear", "getMonth", "getDay", "getHour", "getMinute", "getSecond", "getSolar"),
    "LunarYear": ("getYear", "getMonths", "getJieQiJulianDays"),
    "LunarMonth": ("getYear", "getMonth", "getDayCount", "getFirstJulianDay", "getIndex"),
    "LunarTime": ("toString", "getMinHm", "getMaxHm"),
    "JieQi": ("getName", "isJie", "isQi", "getSolar"),
    "Holiday": ("getDay", "getName", "isWork", "getTarget"),
    "NineStar": ("getIndex", "toString"),
    "EightChar": ("toString", "getSect"),
    "Yun": ("getGender", "getStartYear", "getStartMonth", "getStartDay", "getStartHour", "isForward"),
    "DaYun": ("getIndex", "getStartYear", "getEndYear", "getStartAge", "getEndAge", "getGanZhi"),
    "LiuNian": ("getIndex", "getYear", "getAge", "getGanZhi"),
    "LiuYue": ("getIndex", "getMonthInChinese", "getGanZhi"),
    "XiaoYun": ("getIndex", "getYear", "getAge", "getGanZhi"),
    "SolarWeek": ("getYear", "getMonth", "getDay", "getStart"),
    "SolarMonth": ("getYear", "getMonth"),
    "SolarSeason": ("getYear", "getMonth"),
    "SolarHalfYear": ("getYear", "getMonth"),
    "SolarYear": ("getYear",),
    "Foto": ("toString", "getYear", "getMonth", "getDay"),
    "Tao": ("toString", "getYear", "getMonth", "getDay"),
    "FotoFestival": ("getName", "getResult", "isEveryMonth", "getRemark"),
    "TaoFestival": ("getName", "getRemark"),
    "Fu": ("getName", "getIndex"),
    "ShuJiu": ("getName", "getIndex"),
}


def canon(v, depth=0):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return ["f", repr(v)]
    if depth > 8:
        return ["deep", type(v).__name__]
    if isinstance(v, (list, tuple)):
        # whether a list is a list or a tuple is not part of the answer
        return ["l"] + [canon(x, depth + 1) for x in list(v)[:MAXITEMS]]
    if isinstance(v, dict):
        return ["d"] + [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in list(v.items())[:MAXITEMS]]
    n = type(v).__name__
    for b in type(v).__mro__:
        if b.__name__ in SUMMARY and CLS.get(b.__name__) is b:
            n = b.__name__
            break
    if n in SUMMARY:
        return ["o", n] + [canon(getattr(v, m)(), depth + 1) for m in SUMMARY[n]]
    if isinstance(v, (datetime.datetime, datetime.date)):
        return ["dt", str(v)]
    try:
        return ["it", type(v).__name__] + [canon(x, depth + 1) for x in list(v)[:MAXITEMS]]
    except TypeError:
        return ["x", n]


def canon_exc(e):
    n = type(e).__name__
    if isinstance(e, (RecursionError, MemoryError)):
        return ["!", n]
    return ["!", n, str(e)[:300]]


def is_exc(v):
    return isinstance(v, list) and len(v) >= 1 and v[0] == "!"


# --------------------------------------------------------------- evaluation
ARGLOG = None        # when a list: objects passed as arguments, as they were
SLOTS = {}           # the objects callers share, for requests that pass one as an argument ({"$": slot})


def mkarg(a):
    v = mkarg1(a)
    if ARGLOG is not None and isinstance(a, dict) and ("q" in a or "$" in a) and len(ARGLOG) < 200:
        ARGLOG.append((v, canon(v)))
    return v


def mkarg1(a):
    if isinstance(a, dict):
        if "dt" in a:
            if "tz" in a:
                return datetime.datetime(*a["dt"], tzinfo=datetime.timezone(datetime.timedelta(minutes=a["tz"])))
            return datetime.datetime(*a["dt"])
        if "date" in a:
            return datetime.date(*a["date"])
        if "big" in a:
            return 10 ** a["big"]
        if "f" in a:
            return float(a["f"])
        if "q" in a:
            v = build(a["q"])
            return follow(v, a["q"]["p"][0]) if a["q"].get("p") else v
        if "$" in a:
            return SLOTS[a["$"]]
        raise ValueError(a)
    return a


def scan(y):
    """every solar term and new moon of 110 years from year y, in one answer (days only, computed from the tables)"""
    su = CLS["ShouXingUtil"]
    w = (y - 2000) * 365.2422
    out = []
    for i in range(110 * 24):
        out.append(su.calcQi(w + i * 15.2184))
        if i % 2:
            out.append(su.calcShuo(w + i * 14.7653))
    return ",".join("%d" % x for x in out)


def feasts(y, m):
    """festivals and other things with names of every day of three months, in one answer"""
    out = []
    s = CLS["Solar"].fromYmd(y, m, 1)
    for i in range(92):
        d = s.next(i)
        t = d.getLunar()
        f, o = t.getFoto(), t.getTao()
        out.append("%s|%s|%s|%s|%s|%s|%s|%s|%s|%s|%s" % (
            t, d.getFestivals(), d.getOtherFestivals(), t.getFestivals(), t.getOtherFestivals(), [str(x.getName()) for x in f.getFestivals()],
            f.getOtherFestivals(), [str(x.getName()) for x in o.getFestivals()], t.getXiu(), t.getWuHou(), t.getSeason()))
    return "\n".join(out)


def year(y):
    """every festival table, read through the days of a year"""
    out = []
    lu = CLS["Lunar"]
    for m in range(1, 13):
        for d in range(1, 30):
            t = lu.fromYmd(y, m, d)
            s = t.getSolar()
            f, o = t.getFoto(), t.getTao()
            out.append("%s|%s|%s|%s|%s|%s|%s|%s" % (t.getFestivals(), t.getOtherFestivals() if d % 8 == 0 else "", s.getFestivals(), s.getOtherFestivals(),
                [x.toFullString() for x in f.getFestivals()], f.getOtherFestivals(), [x.toFullString() for x in o.getFestivals()], f.getXiu()))
    return "\n".join(out)


def tables(n):
    """what the tables say, by the public readers, in one answer"""
    lu, hu = CLS["LunarUtil"], CLS["HolidayUtil"]
    out = []
    for i in range(60):
        a, b = JZ[i], JZ[(i * 7 + n) % 60]
        out.append("%s %s %s %s" % (a, lu.getJiaZiIndex(a), lu.getXun(a), lu.getXunKong(a)))
        out.append("%s %s" % (lu.getDayYi(a, b), lu.getDayJi(b, a)))
        out.append("%s %s" % (lu.getTimeYi(a, b), lu.getTimeJi(b, a)))
        out.append("%s %s" % (lu.getDayJiShen(n % 12 + 1, a), lu.getDayXiongSha(n % 12 + 1, b)))
    for i in range(9):
        out.append(CLS["NineStar"].fromIndex(i).toFullString())
    for i in range(24):
        out.append(str(lu.getTimeZhiIndex("%02d:30" % i)))
    for y in range(2001 + n % 2, 2027, 2):
        out.append(";".join(str(h) for h in hu.getHolidays(y)))
    t = CLS["Solar"].fromYmdHms(1985 + n % 60, n % 12 + 1, n % 28 + 1, n % 24, 30, 0).getLunar()
    out.append(t.toFullString())
    out.append(t.getEightChar().getYun(n % 2).getStartSolar().toFullString())
    return "\n".join(out)


def rnd_scan(rng):
    return {"c": "#.scan", "a": [rng.choice(range(-120, 2000, 110))], "p": []}


def rnd_sweep(rng):
    """one of a limited number of requests that read a great deal"""
    if rng.random() < 0.5:
        return {"c": "#.feasts", "a": [rng.choice((1985, 2004, 2020, 2033)), rng.choice((1, 4, 7, 10))], "p": []}
    return {"c": "#.tables", "a": [rng.randint(0, 23)], "p": []}


def build(q):
    c, m = q["c"].split(".")
    if c == "#":
        return {"scan": scan, "feasts": feasts, "tables": tables, "year": year}[m](*q["a"])
    f = getattr(CLS[c], m)
    return f(*[mkarg(a) for a in q["a"]])


def follow(o, path):
    for st in path:
        m = st[0]
        if m == "#":
            o = o[st[1]] if not isinstance(o, dict) else list(o.items())[st[1]]
        elif m == "@":
            o = o[st[1]]
        elif m == "str":
            o = str(o)
        elif m == "!":
            # called for its effect on the object, which is kept
            getattr(o, st[1])(*[mkarg(a) for a in st[2:]])
        else:
            o = getattr(o, m)(*[mkarg(a) for a in st[1:]])
    return o


def evaluate(q, loot=None):
    """Canonical answers of a request.  Library exceptions become values; BaseExceptions
    that are not Exceptions propagate (they come from fault injection or the simulator)."""
    try:
        o = build(q)
        if loot is not None:
            loot.append(o)
        if not q.get("p"):
            return [canon(o)]
    except Exception as e:
        return [canon_exc(e)]
    out = []
    for p in q["p"]:
        try:
            v = follow(o, p)
            if loot is not None:
                loot.append(v)
            out.append(canon(v))
        except Exception as e:
            out.append(canon_exc(e))
    return out


def key(q):
    return json.dumps(q, sort_keys=True, ensure_ascii=False)


# --------------------------------------------------------------- generation
# years in which months were numbered otherwise for a while
REFORMS = ((7, 25), (235, 241), (688, 702), (760, 763))
GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
JZ = [GAN[i % 10] + ZHI[i % 12] for i in range(60)]
DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
# years with a leap lunar month of 1900-2100 style, and odd spots of the calendar
SPECIAL_YEARS = (1, 4, 5, 19, 100, 237, 239, 240, 618, 689, 690, 700, 761, 762, 1500, 1581, 1582, 1583, 1600, 1700,
                 1899, 1900, 1985, 1989, 1999, 2000, 2004, 2012, 2014, 2017, 2020, 2023, 2025, 2033, 2034, 2100, 2262,
                 2400, 3358, 9997)
LEAPS = {1987: 6, 1990: 5, 1993: 3, 1995: 8, 1998: 5, 2001: 4, 2004: 2, 2006: 7, 2009: 5, 2012: 4, 2014: 9, 2017: 6,
         2020: 4, 2023: 2, 2025: 6, 2028: 5, 2031: 3, 2033: 11, 2036: 6, 2039: 5, 2042: 2, 1984: 10, 1979: 6, 1976: 8}
# a few known month terms (date and time), to place moments around
JIE = [(2020, 2, 4, 17, 3, 12), (1985, 11, 7, 19, 29, 29), (2022, 1, 5, 17, 13, 54), (2021, 12, 7, 5, 56, 55),
       (1988, 2, 4, 22, 42, 53), (2004, 2, 4, 19, 56, 12), (2023, 4, 5, 9, 12, 52), (2024, 6, 5, 12, 9, 40),
       (2017, 2, 3, 23, 34, 1), (1900, 1, 6, 2, 3, 57)]


def dim(y, m):
    if m == 2:
        leap = (y % 4 == 0) if y < 1600 else (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
        return 29 if leap else 28
    return DIM[m - 1]


def rnd_year(rng):
    r = rng.random()
    if r < 0.55:
        return rng.randint(1900, 2100)
    if r < 0.75:
        return rng.choice(SPECIAL_YEARS)
    if r < 0.78:
        return rng.randint(*rng.choice(REFORMS))
    if r < 0.9:
        return rng.randint(1, 1899)
    return rng.randint(2101, 9990)


def rnd_time(rng):
    r = rng.random()
    if r < 0.3:
        return [0, 0, 0]
    if r < 0.5:
        return [23, rng.choice((0, 0, 30, 59)), rng.choice((0, 0, 59))]
    if r < 0.6:
        return [22, 59, 59]
    return [rng.randint(0, 23), rng.choice((0, 30, rng.randint(0, 59))), rng.choice((0, rng.randint(0, 59)))]


def fix_day(y, m, d):
    d = min(d, dim(y, m))
    if y == 1582 and m == 10 and 4 < d < 15:
        d = 15
    return d


def rnd_moment(rng, years=None):
    if years is None and rng.random() < 0.25:
        return edge_moment(rng)
    y = rng.randint(*years) if years else rnd_year(rng)
    m = rng.randint(1, 12)
    if rng.random() < 0.08:
        return feast_moment(rng, y)
    d = fix_day(y, m, rng.choice((1, 28, 29, 30, 31, rng.randint(1, 31), rng.randint(1, 31))))
    return [y, m, d] + rnd_time(rng)


def feast_moment(rng, y):
    """a day of which more is to be said than of most: the dog days, the nines, festivals"""
    m, d = rng.choice(((7, rng.randint(11, 31)), (7, rng.randint(20, 31)), (8, rng.randint(1, 25)), (1, rng.randint(1, 31)), (2, rng.randint(1, 28)), (12, rng.randint(21, 31)),
                       (rng.choice((1, 3, 5, 6, 7, 8, 10, 12)), 1), (5, rng.randint(8, 14)), (4, rng.randint(3, 6)), (9, 10), (11, rng.randint(22, 28))))
    return [y, m, d] + rnd_time(rng)


def edge_moment(rng, years=None):
    """At a solar term (to the second, or elsewhere on its day or the days around it), or at a lunar new year."""
    r = rng.random()
    if r < 0.1:
        return list(rng.choice(JIE))
    if r < 0.25:
        t = rng.choice(SPECIAL["news"]) + [0, 0, 0]
        off = rng.choice((0, 0, -86400, 86400, -3600, -1, rng.randint(-86400, 86400)))
    else:
        t = rng.choice(SPECIAL["terms"])
        off = rng.choice((0, 0, 0, 1, -1, 60, -60, 3600, -3600, -86400, 86400, 15 * 86400, rng.randint(-86400, 86400)))
    if years:
        t = rng.choice([x for x in SPECIAL["terms"] if years[0] <= x[0] <= years[1]] or [t])
    t = list(t)
    if off % 86400 == 0 and off:
        t[2] += off // 86400
    elif abs(off) < 86400:
        n = t[3] * 3600 + t[4] * 60 + t[5] + off
        t[2] += n // 86400
        n %= 86400
        t[3:] = [n // 3600, n // 60 % 60, n % 60]
    while t[2] < 1:
        t[1] -= 1
        if t[1] < 1:
            t[0], t[1] = t[0] - 1, 12
        t[2] += dim(t[0], t[1])
    while t[2] > dim(t[0], t[1]):
        t[2] -= dim(t[0], t[1])
        t[1] += 1
        if t[1] > 12:
            t[0], t[1] = t[0] + 1, 1
    t[2] = fix_day(t[0], t[1], t[2])
    if rng.random() < 0.2:
        # early or late the same day
        t[3:] = rng.choice(([0, 0, 0], [23, 59, 59], [23, 0, 0], [12, 0, 0]))
    if not 1 <= t[0] <= 9990:
        t[0] = 2000
    return t


def vary_moment(rng, t):
    """A moment close to, or easily confused with, t."""
    y, m, d, h, mi, s = t
    r = rng.random()
    if r < 0.22:
        pass
    elif r < 0.34:
        h, mi, s = rnd_time(rng)
    elif r < 0.40:
        h = (h + rng.choice((1, -1, 12))) % 24
    elif r < 0.46:
        mi = rng.randint(0, 59)
    elif r < 0.50:
        s = rng.randint(0, 59)
    elif r < 0.58:
        d = d + rng.choice((1, -1, 2, 10, 15))
    elif r < 0.66:
        m = (m - 1 + rng.choice((1, -1, 6, 10))) % 12 + 1
    elif r < 0.80:
        y = y + rng.choice((1, -1, 2, 4))
    elif r < 0.92:
        y = y + rng.choice((60, -60, 100, 19, 400, -400, 10, 12, 120, 1000))
    elif r < 0.96:
        m, d = d, m
        if m > 12:
            m = m - 12 if m - 12 <= 12 else 12
    else:
        return rnd_moment(rng)
    if y < 1:
        y = 1 + (-y) % 1000
    if y > 9990:
        y = 1900 + y % 100
    m = min(max(m, 1), 12)
    d = fix_day(y, m, max(1, d))
    return [y, m, d, h, mi, s]


def rnd_lunar_ymd(rng, t):
    """Lunar date arguments in the family of t (month may be leap)."""
    y, m, d = t[0], t[1], min(t[2], 29)
    if rng.random() < 0.3:
        y, m = rng.choice(SPECIAL["leaps"]) if rng.random() < 0.7 else rng.choice(sorted(LEAPS.items()))
        if rng.random() < 0.6:
            m = -m
    elif rng.random() < 0.15:
        m, d = rng.choice(((1, 1), (12, 29), (12, 30), (1, 15), (11, 30), (12, 8)))
    return [y, m, d]


def lunar_paths(rng, n):
    ps = []
    g = [x for x in GETTERS["Lunar"] if x not in _HEAVY["Lunar"]]
    for _ in range(n):
        r = rng.random()
        if r < 0.58:
            ps.append([[rng.choice(g)]])
        elif r < 0.64:
            ps.append([[rng.choice(("getYearPositionTaiSui", "getMonthPositionTaiSui", "getDayPositionTaiSui",
                                     "getYearPositionTaiSuiDesc", "getDayPositionFu", "getTimePositionFu", "getDayYi",
                                     "getDayJi", "getYearNineStar", "getMonthNineStar", "getDayPositionTaiSuiDesc",
                                     "getMonthPositionTaiSuiDesc", "getDayPositionFuDesc")), rng.choice((1, 2, 3))]])
        elif r < 0.72:
            ps.append([[rng.choice(("getNextJie", "getPrevJie", "getNextQi", "getPrevQi", "getNextJieQi", "getPrevJieQi"))]
                       + rng.choice(([], [True], [False]))])
        elif r < 0.76:
            ps.append([["next", rng.choice((0, 1, -1, 29, 30, -30, 100, 355))]])
        elif r < 0.84:
            ps.append([["getEightChar"], [rng.choice(GETTERS["EightChar"])]])
        elif r < 0.88:
            ps.append([["getEightChar"], ["getYun", rng.randint(0, 1), rng.randint(1, 2)], [rng.choice(GETTERS["Yun"])]])
        elif r < 0.90:
            ps.append([[rng.choice(("toFullString", "getOtherFestivals", "getTimes", "getFestivals"))]])
        elif r < 0.92:
            ps.append([["getTime"], [rng.choice(GETTERS["LunarTime"])]])
        elif r < 0.94:
            ps.append([["getFoto"], [rng.choice(GETTERS["Foto"])]])
        elif r < 0.96:
            ps.append([["getTao"], [rng.choice(GETTERS["Tao"])]])
        elif r < 0.98:
            ps.append([["getJieQiTable"]])
        else:
            ps.append([[rng.choice(("getDayNineStar", "getYearNineStar", "getMonthNineStar", "getTimeNineStar"))],
                       [rng.choice(GETTERS["NineStar"])]])
    return ps


def some(rng, cls, n):
    return [[with_args(rng, cls, rng.choice(GETTERS[cls]))] for _ in range(n)]


def with_args(rng, cls, m):
    """a step for reader m, sometimes with values for its optional parameters"""
    ps = PARAMS.get((cls, m)) or []
    if not ps or rng.random() < 0.5:
        return [m]
    out = [m]
    for nm, d in ps[:rng.randint(1, len(ps))]:
        if isinstance(d, bool):
            out.append(rng.random() < 0.5)
        elif isinstance(d, int):
            out.append(rng.choice((d, 1, 2, 3)) if "sect" in nm else rng.choice((d, 0, 1, 2, d + 1, d + 4, rng.randint(0, 14))))
        else:
            break
    return out


def sib_path(rng, p, cls=None):
    """A reading easily confused with p: an optional argument given, left out or changed, or a similarly named reader."""
    p = json.loads(json.dumps(p))
    idx = [i for i, st in enumerate(p) if st[0] not in ("#", "@", "str", "!")]
    if not idx:
        return p
    i = rng.choice(idx)
    st = p[i]
    own = [c for c in GETTERS if any(st[0] == m for m in GETTERS[c])] if i else [cls]
    ps = next((PARAMS[(c, st[0])] for c in own if PARAMS.get((c, st[0]))), [])
    r = rng.random()
    if len(st) > 1 and r < 0.6:
        k = rng.randrange(1, len(st))
        if isinstance(st[k], bool):
            st[k] = not st[k]
        elif isinstance(st[k], int):
            st[k] = rng.choice((st[k] + 1, st[k] - 1, st[k] + 2, -st[k], 3 - st[k] if st[k] in (1, 2) else 1 - st[k]))
        if rng.random() < 0.2 and len(st) - 1 > 0 and ps:
            st.pop()
        return p
    if ps and r < 0.9:
        d = ps[0][1]
        p[i] = [st[0], (rng.random() < 0.5) if isinstance(d, bool) else rng.choice((1, 2, 3)) if isinstance(d, int) else d]
        return p
    if i == len(p) - 1 or r < 0.3:
        # getX / getXBySect, getDayX / getTimeX, getMonthX / getYearX
        names = GETTERS.get(own[0] if own else None) or []
        for a, b in rng.sample((("Day", "Time"), ("Month", "Year"), ("Prev", "Next"), ("Jie", "Qi"), ("Jie", "JieQi"), ("Gan", "Zhi"), ("Exact", "Exact2"),
                                ("Gua", "Wuxing"), ("Yi", "Ji")), 9):
            for x, y in ((a, b), (b, a)):
                if x in st[0] and st[0].replace(x, y, 1) in names:
                    p[i] = [st[0].replace(x, y, 1)] + st[1:]
                    return p
    return p


KINDS = ("solar", "s2l", "lunar", "eight", "yun", "lyear", "lmonth", "week", "smonth", "season", "half", "syear",
         "foto", "tao", "ltime", "hol", "hols", "holt", "arith", "cmp", "util", "sxu", "jd", "bazi", "bad", "work",
         "nine", "date", "dayun")
WEIGHTS = {"solar": 6, "s2l": 16, "lunar": 14, "eight": 10, "yun": 5, "dayun": 5, "lyear": 7, "lmonth": 6, "week": 4, "smonth": 2,
           "season": 1.5, "half": 1.5, "syear": 1.5, "foto": 3, "tao": 3, "ltime": 3, "hol": 3, "hols": 2, "holt": 2,
           "arith": 4, "cmp": 2, "util": 3, "sxu": 1.5, "jd": 2, "bazi": 1.5, "bad": 4, "work": 2, "nine": 1, "date": 2}


def bad_query(rng):
    y = rng.choice((2020, 1999, 1582, 2033))
    L = [
        ("Solar.fromYmd", [y, 13, 1]), ("Solar.fromYmd", [y, 0, 1]), ("Solar.fromYmd", [1582, 10, rng.randint(5, 14)]),
        ("Solar.fromYmd", [y, 2, 0]), ("Solar.fromYmdHms", [y, 1, 1, 24, 0, 0]), ("Solar.fromYmdHms", [y, 1, 1, 0, 60, 0]),
        ("Solar.fromYmdHms", [y, 1, 1, 0, 0, -1]), ("Solar.fromYmd", [str(y), 1, 1]), ("Solar.fromYmd", [None, 1, 1]),
        ("Lunar.fromYmd", [y, 13, 1]), ("Lunar.fromYmd", [y, 1, 31]), ("Lunar.fromYmd", [y, -rng.randint(1, 12), 1]),
        ("Lunar.fromYmd", [y, 4, 0]), ("Lunar.fromYmd", [y, 4, -1]), ("Lunar.fromYmd", [str(y), 1, 1]), ("Lunar.fromYmd", [None, 1, 1]),
        ("Lunar.fromYmd", [y, 0, 1]), ("Lunar.fromYmdHms", [y, 1, 1, 24, 0, 0]), ("Lunar.fromYmdHms", [y, 1, 1, 0, 61, 0]),
        ("LunarYear.fromYear", [str(y)]), ("LunarYear.fromYear", [None]), ("LunarYear.fromYear", [[]]),
        ("LunarYear.fromYear", [{"big": 400}]), ("LunarMonth.fromYm", [y, 13]), ("LunarMonth.fromYm", [y, -13]),
        ("LunarMonth.fromYm", [None, 1]), ("Foto.fromYmd", [y + 543, 13, 1]), ("Tao.fromYmd", [y + 2697, 1, 31]),
        ("HolidayUtil.getHoliday", [None]), ("HolidayUtil.getHoliday", ["abc"]), ("HolidayUtil.getHolidays", [99999]),
        ("HolidayUtil.getHoliday", ["2020-1"]), ("HolidayUtil.getHolidaysByTarget", ["zzzz"]),
        ("Solar.fromBaZi", ["甲", "b", "c", "d"]), ("Solar.fromBaZi", ["", "", "", ""]), ("Solar.fromBaZi", [None, None, None, None]),
        ("SolarWeek.fromYmd", [y, 13, 1, 0]), ("NineStar.fromIndex", [99]), ("LunarUtil.getXun", ["xx"]),
        ("LunarUtil.getDayYi", ["??", "甲子"]), ("LunarUtil.getJiaZiIndex", ["甲丑"]), ("Solar.fromDate", [None]),
        ("Lunar.fromDate", [None]), ("Solar.fromJulianDay", [None]), ("SolarMonth.fromYm", [y, 13]),
        ("LunarTime.fromYmdHms", [y, 13, 1, 0, 0, 0]), ("SolarUtil.getDaysOfMonth", [y, 13]),
        ("LunarUtil.getTimeZhiIndex", ["x"]), ("LunarUtil.convertTime", [""]),
    ]
    c, a = rng.choice(L)
    p = []
    if c.startswith("NineStar"):
        p = [[["getColor"]]]
    if c.startswith("SolarWeek") or c.startswith("SolarMonth"):
        p = [[["getIndex"]] if "Week" in c else [["getDays"]]]
    return {"c": c, "a": a, "p": p}


def gen_query(rng, t, kinds=None, npaths=None):
    """One request about a moment related to t."""
    ks = kinds or KINDS
    k = rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
    v = vary_moment(rng, t)
    y, m, d, h, mi, s = v
    n = npaths if npaths is not None else rng.choice((1, 1, 2, 3, 5))
    if k == "solar":
        return {"c": "Solar.fromYmdHms", "a": v, "p": some(rng, "Solar", n)}
    if k == "s2l":
        p = [[["getLunar"]] + x for x in lunar_paths(rng, n)]
        if rng.random() < 0.3:
            p[0] = [["getLunar"]]
        return {"c": "Solar.fromYmdHms", "a": v, "p": p}
    if k == "lunar":
        a = rnd_lunar_ymd(rng, v)
        if rng.random() < 0.3:
            return {"c": "Lunar.fromYmd", "a": a, "p": lunar_paths(rng, n)}
        return {"c": "Lunar.fromYmdHms", "a": a + [h, mi, s], "p": lunar_paths(rng, n)}
    if k == "eight":
        pre = [["getLunar"], ["getEightChar"]]
        p = [pre + [[rng.choice(GETTERS["EightChar"])]] for _ in range(n)]
        return {"c": "Solar.fromYmdHms", "a": v, "p": p}
    if k == "yun":
        pre = [["getLunar"], ["getEightChar"]]
        p = [pre + [["getYun", rng.randint(0, 1), rng.randint(1, 2)], [rng.choice(GETTERS["Yun"])]] for _ in range(n)]
        return {"c": "Solar.fromYmdHms", "a": v, "p": p}
    if k == "dayun":
        pre = [["getLunar"], ["getEightChar"]]
        p = []
        for _ in range(min(n, 3)):
            x = pre + [["getYun", rng.randint(0, 1), rng.randint(1, 2)], ["getDaYun"] + rng.choice(([], [4], [8])), ["#", rng.randint(0, 3)]]
            r = rng.random()
            if r < 0.3:
                x = x + [[rng.choice([z for z in GETTERS["DaYun"]])]]
            elif r < 0.6:
                x = x + [["getLiuNian"], ["#", 0], [rng.choice([z for z in GETTERS["LiuNian"]])]]
            elif r < 0.8:
                x = x + [["getXiaoYun"], ["#", 0], [rng.choice([z for z in GETTERS["XiaoYun"]])]]
            else:
                x = x + [["getLiuNian"], ["#", 0], ["getLiuYue"], ["#", rng.randint(0, 11)], [rng.choice([z for z in GETTERS["LiuYue"]])]]
            p.append(x)
        return {"c": "Solar.fromYmdHms", "a": v, "p": p}
    if k == "lyear":
        p = []
        for _ in range(n):
            r = rng.random()
            if r < 0.6:
                p.append([[rng.choice(GETTERS["LunarYear"])]])
            elif r < 0.75:
                p.append([["getMonth", rng.choice((m, -m, LEAPS.get(y, 1), -LEAPS.get(y, 1)))]])
            elif r < 0.85:
                p.append([["next", rng.choice((0, 1, -1, 60))]])
            elif r < 0.92:
                p.append([["getPositionFu", rng.choice((1, 2))]])
            else:
                p.append([[rng.choice(("getMonths", "getMonthsInYear"))], ["#", rng.randint(0, 11)], [rng.choice(GETTERS["LunarMonth"])]])
        return {"c": "LunarYear.fromYear", "a": [y], "p": p}
    if k == "lmonth":
        a = rnd_lunar_ymd(rng, v)[:2]
        p = some(rng, "LunarMonth", n)
        if rng.random() < 0.4:
            p[0] = [["next", rng.choice((0, 1, -1, 2, 12, -13, 25))]]
        return {"c": "LunarMonth.fromYm", "a": a, "p": p}
    if k == "week":
        st = rng.choice((0, 1, 1, 6, rng.randint(0, 6)))
        p = some(rng, "SolarWeek", n)
        if rng.random() < 0.4:
            p[0] = [["next", rng.choice((0, 1, -1, 4, -5)), rng.random() < 0.5]]
        return {"c": "SolarWeek.fromYmd", "a": [y, m, d, st], "p": p}
    if k == "smonth":
        p = some(rng, "SolarMonth", n)
        r = rng.random()
        if r < 0.3:
            p[0] = [["next", rng.choice((0, 1, -1, 13, -25))]]
        elif r < 0.6:
            p[0] = [["getWeeks", rng.randint(0, 6)]]
        return {"c": "SolarMonth.fromYm", "a": [y, m], "p": p}
    if k == "season":
        return {"c": "SolarSeason.fromYm", "a": [y, m], "p": some(rng, "SolarSeason", n) + [[["next", rng.choice((0, 1, -1, 5))]]]}
    if k == "half":
        return {"c": "SolarHalfYear.fromYm", "a": [y, m], "p": some(rng, "SolarHalfYear", n) + [[["next", rng.choice((0, 1, -1, 5))]]]}
    if k == "syear":
        return {"c": "SolarYear.fromYear", "a": [y], "p": some(rng, "SolarYear", n) + [[["next", rng.choice((0, 1, -1, 5))]]]}
    if k in ("foto", "tao"):
        c = "Foto" if k == "foto" else "Tao"
        a = rnd_lunar_ymd(rng, v)
        a[0] += 544 if k == "foto" else 2697
        return {"c": c + ".fromYmdHms", "a": a + [h, mi, s], "p": some(rng, c, n)}
    if k == "ltime":
        a = rnd_lunar_ymd(rng, v)
        return {"c": "LunarTime.fromYmdHms", "a": a + [h, mi, s], "p": some(rng, "LunarTime", n)}
    if k in ("hol", "hols", "holt"):
        y = rng.choice((y, rng.randint(2001, 2026), rng.randint(2010, 2025)))
        ymd = rng.choice(([y, m, d], [y, 10, rng.randint(1, 8)], [y, 5, rng.randint(1, 5)], [y, 1, rng.randint(1, 3)], [y, 2, rng.randint(1, 24)]))
        if k == "hol":
            if rng.random() < 0.4:
                return {"c": "HolidayUtil.getHoliday", "a": ["%04d-%02d-%02d" % tuple(ymd)], "p": []}
            return {"c": "HolidayUtil.getHoliday", "a": ymd, "p": []}
        if k == "hols":
            return {"c": "HolidayUtil.getHolidays", "a": rng.choice(([y], [y, ymd[1]], ["%04d-%02d" % (y, ymd[1])])), "p": []}
        ymd = rng.choice(([y, 10, 1], [y, 5, 1], [y, 1, 1], ymd))
        return {"c": "HolidayUtil.getHolidaysByTarget", "a": rng.choice(([y], ymd, ["%04d-%02d-%02d" % tuple(ymd)])), "p": []}
    if k == "arith":
        p = []
        for _ in range(n):
            p.append(rng.choice(([["next", rng.choice((0, 1, -1, 31, -31, 366, -400))]],
                                 [["nextYear", rng.choice((0, 1, -1, 4, -3))]],
                                 [["nextMonth", rng.choice((0, 1, -1, 12, -13, 6))]],
                                 [["nextHour", rng.choice((0, 1, -1, 25, -49, 13))]],
                                 [["getJulianDay"]], [["getWeek"]])))
        return {"c": "Solar.fromYmdHms", "a": v, "p": p}
    if k == "cmp":
        w = vary_moment(rng, t)
        o = {"q": {"c": "Solar.fromYmdHms", "a": w}}
        return {"c": "Solar.fromYmdHms", "a": v, "p": [[[x, o]] for x in rng.sample(("subtract", "subtractMinute", "isAfter", "isBefore"), min(n, 4))]}
    if k == "util":
        gz = lambda: rng.choice(JZ)
        r = rng.choice(("getDayYi", "getDayJi", "getTimeYi", "getTimeJi", "getDayJiShen", "getDayXiongSha", "getXun",
                        "getXunKong", "getJiaZiIndex", "getXunIndex", "getTimeZhiIndex", "convertTime",
                        "S.isLeapYear", "S.getDaysOfYear", "S.getDaysOfMonth", "S.getDaysInYear", "S.getWeeksOfMonth", "S.getDaysBetween", "F.getXiu"))
        if r in ("getDayYi", "getDayJi", "getTimeYi", "getTimeJi"):
            return {"c": "LunarUtil." + r, "a": [gz(), gz()], "p": []}
        if r in ("getDayJiShen", "getDayXiongSha"):
            return {"c": "LunarUtil." + r, "a": [rng.choice((m, -m)), gz()], "p": []}
        if r in ("getXun", "getXunKong", "getJiaZiIndex", "getXunIndex"):
            return {"c": "LunarUtil." + r, "a": [gz()], "p": []}
        if r in ("getTimeZhiIndex", "convertTime"):
            return {"c": "LunarUtil." + r, "a": ["%02d:%02d" % (h, mi)], "p": []}
        if r == "F.getXiu":
            return {"c": "FotoUtil.getXiu", "a": [m, d], "p": []}
        a = {"S.isLeapYear": [y], "S.getDaysOfYear": [y], "S.getDaysOfMonth": [y, m], "S.getDaysInYear": [y, m, d],
             "S.getWeeksOfMonth": [y, m, rng.randint(0, 6)], "S.getDaysBetween": v[:3] + vary_moment(rng, t)[:3]}[r]
        return {"c": "SolarUtil." + r[2:], "a": a, "p": []}
    if k == "sxu":
        w = (y - 2000) * 365 + m * 30 + d
        r = rng.choice(("calcShuo", "calcQi", "qiAccurate2", "dtT", "saLonT", "msaLonT"))
        if r in ("saLonT", "msaLonT"):
            w = w / 1000.0
        return {"c": "ShouXingUtil." + r, "a": [{"f": float(w)}], "p": []}
    if k == "jd":
        jd = 1721000 + (y * 1461) // 4 + m * 30 + d + rng.choice((0, 0.25, 0.5, 0.123, 0.999999, 0.4999999))
        return {"c": "Solar.fromJulianDay", "a": [{"f": float(jd)}], "p": []}
    if k == "date":
        c = rng.choice(("Solar", "Lunar", "SolarMonth", "SolarSeason", "SolarHalfYear", "SolarYear", "SolarWeek"))
        a = [{"dt": v}]
        if rng.random() < 0.35:
            a = [rng.choice(({"dt": v, "tz": rng.choice((0, 480, -300, 345, 840, -720, rng.randint(-1439, 1439)))}, {"date": v[:3]}))]
            if "date" in a[0] and c in ("Solar", "Lunar"):
                a = [{"dt": v, "tz": 0}]
        if c == "SolarWeek":
            a.append(rng.randint(0, 6))
        return {"c": c + ".fromDate", "a": a, "p": [[]] + some(rng, c, 1)}
    if k == "nine":
        return {"c": "NineStar.fromIndex", "a": [rng.randint(0, 8)], "p": some(rng, "NineStar", n)}
    if k == "work":
        y = rng.choice((y, rng.randint(2002, 2026)))
        return {"c": "Solar.fromYmdHms", "a": [y, m, fix_day(y, m, d), h, mi, s], "p": [[["next", rng.choice((0, 1, -1, 2, 5, -7)), True]]]}
    if k == "bazi":
        if rng.random() < 0.6:
            # the pillars of a real moment
            x = rng.choice(SPECIAL["bazi"])
            return {"c": "Solar.fromBaZi", "a": x[2:] + [x[1], max(1, min(x[0] - rng.choice((1, 1, 2, 10, 60)), rng.choice((1960, 9999))))], "p": []}
        return {"c": "Solar.fromBaZi", "a": list(bazi_of(rng)) + [rng.choice((1, 2)), rng.choice((1960, 1980, 2000))], "p": []}
    if k == "bad":
        return bad_query(rng)
    raise AssertionError(k)


def bazi_of(rng):
    """Four pillars that satisfy the year-month and day-hour stem rules (so the search runs)."""
    yi = rng.randrange(60)
    mz = rng.randrange(12)                       # 0 = 子
    off = (mz - 2) % 12
    mg = ((yi % 10 % 5) * 2 + 2 + off) % 10
    di = rng.randrange(60)
    tz = rng.randrange(12)
    tg = ((di % 10 % 5) * 2 + tz) % 10
    return JZ[yi], GAN[mg] + ZHI[mz], JZ[di], GAN[tg] + ZHI[tz]


def _migrate(rng, a, b):
    """(a, b) with the same digits when written one after the other, or None"""
    if a < 0 or b < 0:
        return None
    t = "%d%d" % (a, b)
    cuts = [k for k in range(1, len(t)) if int(t[:k]) != a or int(t[k:]) != b]
    cuts = [k for k in cuts if t[k] != "0" or k == len(t) - 1]
    if not cuts:
        return None
    k = rng.choice(cuts)
    return int(t[:k]), int(t[k:])


def _sib_int(rng, x):
    return x + rng.choice((1, -1, 2, 10, -10, 12, -12, 60, -60, 100, 128, -128, 256, 400, 1000)) if rng.random() < 0.75 else -x


def _sib_gz(rng, g):
    if g not in JZ:
        return g
    i = JZ.index(g)
    r = rng.random()
    if r < 0.4:
        return JZ[(i + rng.choice((10, 20, 30, 40, 50))) % 60]     # same stem
    if r < 0.8:
        return JZ[(i + rng.choice((12, 24, 36, 48))) % 60]         # same branch
    return JZ[(i + rng.choice((1, -1, 30))) % 60]


def _valid(c, a):
    """keep moments valid, so that siblings mostly have answers"""
    cls, f = c.split(".")
    if cls in ("Solar", "SolarWeek", "SolarMonth", "SolarSeason", "SolarHalfYear") and f in ("fromYmd", "fromYmdHms", "fromYm"):
        a[0] = min(max(1, a[0]), 9990)
        a[1] = (abs(a[1]) - 1) % 12 + 1
        if len(a) > 2:
            a[2] = fix_day(a[0], a[1], (abs(a[2]) - 1) % 31 + 1 if a[2] else 1)
        if f == "fromYmdHms":
            a[3] %= 24
            a[4] %= 60
            a[5] %= 60
    elif cls in ("Lunar", "Foto", "Tao", "LunarTime", "LunarMonth", "LunarYear"):
        a[0] = min(max(2, abs(a[0])), 12000)
        if len(a) > 1:
            sg = -1 if a[1] < 0 else 1
            a[1] = sg * ((abs(a[1]) - 1) % 12 + 1)
        if len(a) > 2:
            a[2] = (abs(a[2]) - 1) % 29 + 1
        for i, m in ((3, 24), (4, 60), (5, 60)):
            if len(a) > i:
                a[i] %= m
    return a


def sibling(rng, q):
    """A request for the same readings as q that is easily confused with it: one or two arguments changed a little."""
    q = json.loads(json.dumps(q))
    a = q["a"]
    if any(isinstance(x, (dict, list)) or x is None for x in a):
        return q
    if q["c"] == "Solar.fromBaZi":
        if rng.random() < 0.4 and len(a) > 4:
            a[4] = 3 - a[4]
        elif rng.random() < 0.3 and len(a) > 5:
            a[5] += rng.choice((-20, 20, 10, 1))
        else:
            i = rng.choice((0, 2, 2, 3))
            a[i] = _sib_gz(rng, a[i])
        return q
    ints = [i for i, x in enumerate(a) if isinstance(x, int) and not isinstance(x, bool)]
    if ints and rng.random() < 0.05:
        # an equal argument of another type
        i = rng.choice(ints[:2])
        a[i] = bool(a[i]) if a[i] in (0, 1) and rng.random() < 0.5 else {"f": a[i]}
        return q
    gzs = [i for i, x in enumerate(a) if isinstance(x, str) and x in JZ]
    r = rng.random()
    if r < 0.06 and q.get("p"):
        k = rng.randrange(len(q["p"]))
        q["p"][k] = sib_path(rng, q["p"][k], q["c"].split(".")[0])
        return q
    if r < 0.14 and q.get("p"):
        # a reading's own argument
        steps = [(st, i) for p in q["p"] for st in p for i in range(1, len(st)) if isinstance(st[i], (bool, int)) and st[0] not in ("#", "@")]
        if steps:
            st, i = rng.choice(steps)
            if isinstance(st[i], bool):
                st[i] = not st[i]
            elif st[0] in ("getYun",) or "Position" in st[0] or "NineStar" in st[0]:
                st[i] = 3 - st[i] if st[i] in (1, 2) else (1 - st[i] if st[i] in (0, 1) else 1)
            else:
                st[i] = st[i] + rng.choice((1, -1)) if rng.random() < 0.6 else -st[i]
            return q
    if gzs and (not ints or rng.random() < 0.6):
        if len(gzs) >= 2 and rng.random() < 0.5:
            i, j = gzs[0], gzs[1]
            if rng.random() < 0.3:
                a[i], a[j] = a[j], a[i]
                return q
            base = rng.choice((0, 1))
            m = _migrate(rng, JZ.index(a[i]) + base, JZ.index(a[j]) + base)
            if m and max(m) - base < 60 and min(m) >= base:
                a[i], a[j] = JZ[m[0] - base], JZ[m[1] - base]
                return q
        i = rng.choice(gzs)
        a[i] = _sib_gz(rng, a[i])
        return q
    cls = q["c"].split(".")[0]
    if cls in ("Lunar", "LunarMonth", "Foto", "Tao", "LunarTime") and len(ints) >= 2 and rng.random() < 0.35:
        a[1] = -a[1]                      # the leap month and its namesake
        if rng.random() < 0.3:
            off = {"Foto": 544, "Tao": 2697}.get(cls, 0)
            y = rng.choice(sorted(LEAPS))
            a[0], a[1] = y + off, LEAPS[y] * rng.choice((1, -1))
        return q
    if len(ints) in (5, 6) and rng.random() < 0.35 or len(ints) == 3 and rng.random() < 0.25:
        v = [a[i] for i in ints]
        t = vary_moment(rng, [v[0], abs(v[1]) or 1, v[2], 0, 0, 0][:3] + (v[3:6] + [0] * 6)[:3]) if len(v) >= 3 else v
        for i, x in zip(ints, t):
            a[i] = x
        return {"c": q["c"], "a": _valid(q["c"], a), "p": q.get("p", [])}
    for _ in range(1 if rng.random() < 0.8 else 2):
        if not ints:
            break
        k = rng.randrange(len(ints))
        if k + 1 < len(ints) and rng.random() < 0.25:
            i, j = ints[k], ints[k + 1]
            m = _migrate(rng, a[i], a[j])
            if m:
                a[i], a[j] = m
            else:
                a[i], a[j] = a[j], a[i]
        else:
            a[ints[k]] = _sib_int(rng, a[ints[k]])
    if q["c"].startswith("SolarUtil") or q["c"].startswith("HolidayUtil"):
        for i in ints:
            a[i] = max(-20, min(a[i], 12000))
    if ints and ints == list(range(len(ints))):
        q["a"] = _valid(q["c"], a)
    return q


GZ2 = ("getDayYi", "getDayJi", "getTimeYi", "getTimeJi")
UTIL = (["LunarUtil." + x for x in GZ2 + ("getDayJiShen", "getDayXiongSha", "getXun", "getXunKong", "getXunIndex", "getJiaZiIndex",
                                          "getTimeZhiIndex", "convertTime")]
        + ["LunarUtil." + x for x in GZ2 + ("getDayJiShen", "getDayXiongSha")]
        + ["SolarUtil." + x for x in ("isLeapYear", "getDaysOfYear", "getDaysOfMonth", "getDaysInYear", "getWeeksOfMonth", "getDaysBetween")]
        + ["FotoUtil.getXiu", "HolidayUtil.getHoliday", "HolidayUtil.getHolidays", "HolidayUtil.getHolidaysByTarget", "NineStar.fromIndex"]
        + ["ShouXingUtil." + x for x in ("calcShuo", "calcQi", "qiAccurate", "qiAccurate2", "dtT", "saLonT", "msaLonT", "saLon", "dtCalc", "qiHigh", "shuoHigh",
                                         "nutationLon2", "eLon", "mLon", "qiLow", "shuoLow")])


def util_args(rng, f, t):
    """arguments of a util function, about moment t"""
    y, m, d, h, mi, s = t
    c, f = f.split(".")
    gz = lambda: rng.choice(JZ)
    if f in GZ2:
        return [gz(), gz()]
    if f in ("getDayJiShen", "getDayXiongSha"):
        return [rng.choice((m, m, -m)), gz()]
    if f in ("getXun", "getXunKong", "getXunIndex", "getJiaZiIndex"):
        return [gz()]
    if f in ("getTimeZhiIndex", "convertTime"):
        return ["%02d:%02d" % (h, mi)]
    if f == "getXiu":
        return [m, d]
    if c == "NineStar":
        return [rng.randint(0, 8)]
    if f in ("isLeapYear", "getDaysOfYear"):
        return [y]
    if f == "getDaysOfMonth":
        return [y, m]
    if f == "getDaysInYear":
        return [y, m, d]
    if f == "getWeeksOfMonth":
        return [y, m, rng.randint(0, 6)]
    if f == "getDaysBetween":
        return t[:3] + vary_moment(rng, t)[:3]
    if c == "HolidayUtil":
        y = rng.randint(2002, 2025)
        m, d = rng.choice(((m, d), (10, rng.randint(1, 9)), (1, rng.randint(1, 4)), (5, rng.randint(1, 5))))
        d = fix_day(y, m, d)
        if f == "getHolidays":
            return rng.choice(([y], [y, m], ["%04d-%02d" % (y, m)], ["%04d" % y]))
        return rng.choice(([y, m, d], [y, m, d], ["%04d-%02d-%02d" % (y, m, d)], ["%04d%02d%02d" % (y, m, d)]))
    w = (y - 2000) * 365 + m * 30 + d + rng.choice((0, 0, 0.5, rng.random()))
    if f in ("saLonT", "msaLonT", "qiHigh", "shuoHigh", "qiLow", "shuoLow"):
        return [{"f": round(w / 1000.0, 3)}]
    if f in ("nutationLon2", "dtCalc"):
        return [{"f": float(y if f == "dtCalc" else round(w / 36525, 4))}]
    if f in ("saLon", "eLon", "mLon"):
        return [{"f": round(w / 36525, 4)}, rng.choice((-1, 3, 10, 20))]
    return [{"f": float(w)}]


def around(rng, t, n):
    """n moments of the neighbourhood of t, most of them in the same year"""
    y, m, d, h, mi, s = t
    out = [list(t)]
    for _ in range(n - 1):
        r = rng.random()
        if r < 0.35:
            v = [y, rng.randint(1, 12), rng.randint(1, 31), h, mi, s]
        elif r < 0.5:
            v = [y, m, rng.randint(1, 31), h, mi, s]
        elif r < 0.6:
            v = [y, m, d] + rnd_time(rng)
        elif r < 0.7:
            v = [y + rng.choice((1, -1, 60, 12, 10)), m, d, h, mi, s]
        elif r < 0.8:
            v = [y, rng.choice((1, 2, 2)), rng.randint(1, 28), h, mi, s]
        elif r < 0.85:
            v = edge_moment(rng, None)
        else:
            v = vary_moment(rng, rng.choice(out))
        v[0] = min(max(1, v[0]), 9990)
        v[2] = fix_day(v[0], v[1], v[2])
        out.append(v)
    return out


PANORAMA = (("Lunar", 5), ("EightChar", 4), ("Yun", 1.5), ("DaYun", 1), ("LiuNian", 1), ("LunarYear", 1.5), ("LunarMonth", 1.5), ("Solar", 1.5), ("SolarWeek", 1),
            ("SolarMonth", .5), ("SolarSeason", .3), ("SolarHalfYear", .3), ("SolarYear", .3), ("Foto", 1), ("Tao", 1), ("LunarTime", 1.5), ("NineStar", .7), ("JieQi", .5))


def way_to(rng, cls):
    """from a solar date to an object of a class"""
    g = rng.randint(0, 1)
    return {"Lunar": [["getLunar"]], "EightChar": [["getLunar"], ["getEightChar"]], "Yun": [["getLunar"], ["getEightChar"], ["getYun", g]],
           "DaYun": [["getLunar"], ["getEightChar"], ["getYun", g], ["getDaYun"], ["#", rng.randint(0, 2)]],
           "LiuNian": [["getLunar"], ["getEightChar"], ["getYun", g], ["getDaYun"], ["#", 1], ["getLiuNian"], ["#", rng.randint(0, 5)]],
           "Foto": [["getLunar"], ["getFoto"]], "Tao": [["getLunar"], ["getTao"]], "LunarTime": [["getLunar"], ["getTime"]],
           "NineStar": [["getLunar"], [rng.choice(("getDayNineStar", "getYearNineStar", "getMonthNineStar", "getTimeNineStar"))]],
           "JieQi": [["getLunar"], [rng.choice(("getPrevJieQi", "getNextJieQi", "getCurrentJieQi"))]]}.get(cls, [])


def panorama(rng, era=None, n=None):
    """Every reading (or some) of one kind of object, at many moments near each other."""
    cls = rng.choices([c for c, _ in PANORAMA], [w for _, w in PANORAMA])[0]
    names = [m for m in GETTERS[cls] if m not in _HEAVY.get(cls, ()) or rng.random() < 0.15]
    if rng.random() < 0.5:
        names = rng.sample(names, max(1, len(names) // rng.choice((2, 6))))
    ps = [[with_args(rng, cls, m)] for m in names]
    ps += [sib_path(rng, rng.choice(ps), cls) for _ in range(rng.choice((0, 4)))]
    pre = way_to(rng, cls)
    if cls == "EightChar" and rng.random() < 0.3:
        pre = pre + [["!", "setSect", 1]]
    p = [pre + x for x in ps]
    out = []
    for v in around(rng, rnd_moment(rng, era), n or rng.choice((4, 8, 14))):
        c, a = "Solar.fromYmdHms", v
        if cls == "LunarYear":
            c, a = "LunarYear.fromYear", v[:1]
        elif cls == "LunarMonth":
            c, a = "LunarMonth.fromYm", v[:2]
        elif cls == "SolarWeek":
            c, a = "SolarWeek.fromYmd", v[:3] + [rng.randint(0, 6)]
        elif cls in ("SolarMonth", "SolarSeason", "SolarHalfYear"):
            c, a = cls + ".fromYm", v[:2]
        elif cls == "SolarYear":
            c, a = "SolarYear.fromYear", v[:1]
        elif cls == "LunarTime" and rng.random() < 0.5:
            c, a = "Lunar.fromYmdHms", v[:2] + [min(v[2], 29)] + v[3:]
            out.append({"c": c, "a": a, "p": [x[1:] for x in p]})
            continue
        out.append({"c": c, "a": a, "p": p})
    return out


def whole(cls, rng):
    """one object of a class (as a request with one path), and every reading of it (as JSON)"""
    v = far(rng)
    q = {"c": "Solar.fromYmdHms", "a": v, "p": [way_to(rng, cls)]}
    if cls == "LunarYear":
        q = {"c": "LunarYear.fromYear", "a": v[:1], "p": []}
    elif cls == "SolarWeek":
        q = {"c": "SolarWeek.fromYmd", "a": v[:3] + [1], "p": []}
    elif cls == "LunarMonth":
        q = {"c": "LunarMonth.fromYm", "a": v[:2], "p": []}
    elif cls == "Solar":
        q["p"] = []
    ps = [[with_args(rng, cls, m)] for m in GETTERS[cls] if m not in _HEAVY.get(cls, ())]
    ps += [sib_path(rng, rng.choice(ps), cls) for _ in range(6)]
    return q, [json.dumps(p) for p in ps]


def burst(rng, era=None):
    """A great many requests through one entry point (one util function, or the same readings of one kind of object):
    half of them confusable with an earlier one."""
    fams = [rnd_moment(rng, era) for _ in range(3)]
    if rng.random() < 0.45:
        f = rng.choice(UTIL)
        n = rng.choice((60, 200, 500))
        fresh = lambda: {"c": f, "a": util_args(rng, f, vary_moment(rng, rng.choice(fams)) if rng.random() < 0.5 else rnd_moment(rng, era)),
                         "p": [[["toString"]]] if f.startswith("Nine") else []}
    else:
        k = rng.choice(("solar", "s2l", "s2l", "s2l", "lunar", "lunar", "eight", "eight", "yun", "dayun", "lyear", "lmonth", "week", "smonth", "season", "half",
                        "syear", "foto", "tao", "ltime", "arith", "jd", "bazi"))
        proto = [gen_query(rng, t, (k,), rng.choice((1, 1, 2, 4))) for t in fams]
        n = {"solar": 200, "arith": 200, "smonth": 100, "season": 60, "half": 60, "syear": 20, "week": 100, "jd": 200, "bazi": 12}.get(k, rng.choice((20, 50, 100)))
        ps = proto[0]["p"]

        def fresh():
            q = gen_query(rng, rng.choice(fams) if rng.random() < 0.5 else rnd_moment(rng, era), (k,), 1)
            if q["c"] == proto[0]["c"] and k not in ("bazi",):
                q["p"] = ps
            return q
    out = [fresh()]
    for _ in range(n - 1):
        out.append(sibling(rng, rng.choice(out[-12:])) if rng.random() < 0.5 else fresh())
    return out


class Pool:
    """Families of requests to draw from."""

    def __init__(self, rng, nfam=3, kinds=None, npaths=None, size=None):
        self.rng = rng
        self.kinds = kinds
        self.npaths = npaths
        # a quarter of the worlds live in one era (the calendar is computed differently in each)
        self.era = era = rng.choice(((1, 240), (241, 618), (619, 1644), (619, 1644), (1645, 1899), (2101, 9990)) + REFORMS) if rng.random() < 0.25 else None
        self.fams = [rnd_moment(rng, era) for _ in range(nfam)]
        self.drawn = []
        self.twins = rng.choice((0, 0.3, 0.6))

    def draw(self, rng=None):
        rng = rng or self.rng
        if self.drawn and self.twins and rng.random() < self.twins:
            return sibling(rng, rng.choice(self.drawn))
        q = self.fresh(rng)
        self.drawn.append(q)
        return q

    def fresh(self, rng):
        return gen_query(rng, rng.choice(self.fams), self.kinds, self.npaths)


def stream(shape, seed):
    """An endless stream of requests of one shape about ever different moments."""
    import random
    rng = random.Random("stream:%s:%s" % (shape, seed))
    proto = {}
    n = 0
    if shape.startswith("u:"):
        while True:
            yield {"c": shape[2:], "a": util_args(rng, shape[2:], far(rng)), "p": []}
    if shape == "years":
        ys = list(range(2, 9990))
        rng.shuffle(ys)
        while True:
            for y in ys:
                yield {"c": "LunarYear.fromYear", "a": [y], "p": [[["getLeapMonth"]]]}
    while True:
        if shape == "bad":
            y, n = rng.randint(1, 9990), rng.randint(13, 10 ** 6)
            c, a = rng.choice((("Solar.fromYmd", [y, n, 1]), ("Lunar.fromYmd", [y, n, 1]), ("Solar.fromYmdHms", [y, 1, 1, n, 0, 0]), ("Lunar.fromYmd", [y, 1, n]),
                               ("LunarMonth.fromYm", [y, n]), ("HolidayUtil.getHoliday", ["x%d" % n]), ("HolidayUtil.getHolidays", [n + 10 ** 4]),
                               ("LunarYear.fromYear", [str(n)]), ("Solar.fromBaZi", ["a%d" % n, "b", "c", "d"]), ("LunarUtil.getXun", ["x%d" % n]),
                               ("LunarUtil.getJiaZiIndex", ["x%d" % n]), ("SolarUtil.getDaysOfMonth", [y, n])))
            yield {"c": c, "a": a, "p": []}
            continue
        if n % 250 == 0:
            y = rng.randint(2, 9980)
        n += 1
        q = gen_query(rng, [y] + far(rng)[1:], (shape,), 2)
        if shape not in ("bazi", "hol", "hols", "holt", "util", "cmp", "sxu", "nine") and rng.random() < 0.9:
            # the same readings all along, so that every request leaves the same behind
            q["p"] = proto.setdefault(q["c"], q["p"])
        yield q


def far(rng):
    y, m = rng.randint(2, 9980), rng.randint(1, 12)
    return [y, m, rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]
