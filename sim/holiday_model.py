"""Executable reference model of the public-holiday table: day -> (name index, work, target)."""
import re

REC = re.compile(r"\d{8}[0-9:;<=>?@A-Z]\d\d{8}")


def parse(data):
    out = []
    for i in range(0, len(data) - 17, 18):
        s = data[i:i + 18]
        out.append((s[:8], ord(s[8]) - 48, s[9] == "0", s[10:18]))
    return out


def shipped_table(cls):
    """The table the library ships: any class attribute that is a well-formed record string.
    Independent of the lookup code; None if it cannot be identified."""
    def cands(v, depth=0):
        if isinstance(v, str):
            if len(v) >= 18 * 50 and len(v) % 18 == 0 and all(REC.fullmatch(v[i:i + 18]) for i in range(0, len(v), 18)):
                yield v
        elif isinstance(v, (tuple, list)) and depth < 2:
            for x in v:
                yield from cands(x, depth + 1)
    found = []
    for k in sorted(vars(cls)):
        for v in cands(vars(cls)[k]):
            if v not in found:
                found.append(v)
    return found[0] if len(found) == 1 else None


class Table:
    """Immutable-by-convention model state: names and day -> record over a base dict."""
    __slots__ = ("base", "names", "delta")

    def __init__(self, base, names, delta=None):
        self.base = base          # {day: (idx, work, target)}
        self.names = tuple(names)
        self.delta = delta or {}

    def key(self):
        return (self.names, tuple(sorted(self.delta.items())))

    def get(self, day):
        if day in self.delta:
            return self.delta[day]
        return self.base.get(day)

    def fix(self, names, data):
        t = Table(self.base, self.names if names is None else names, dict(self.delta))
        if data is not None:
            for i in range(0, len(data) - 17, 18):
                s = data[i:i + 18]
                if s[8] == "~":
                    if t.get(s[:8]) is not None:
                        t.delta[s[:8]] = None
                else:
                    t.delta[s[:8]] = (ord(s[8]) - 48, s[9] == "0", s[10:18])
        return t

    def items(self, pred):
        for d, r in self.base.items():
            if d not in self.delta and pred(d, r):
                yield d, r
        for d, r in self.delta.items():
            if r is not None and pred(d, r):
                yield d, r

    def _canon(self, d, r):
        dash = lambda s: s[:4] + "-" + s[4:6] + "-" + s[6:]
        return ["o", "Holiday", dash(d), self.names[r[0]], r[1], dash(r[2])]

    def lookup(self, q):
        """expected canonical answer (lists sorted) of a holiday request, or None if the model does not cover it"""
        c, a = q["c"], q["a"]
        s = "".join(str(x).replace("-", "") if n == 0 else "%02d" % x for n, x in enumerate(a))
        if c == "HolidayUtil.getHoliday":
            if len(s) != 8:
                return None
            r = self.get(s)
            return [None if r is None else self._canon(s, r)]
        if c == "HolidayUtil.getHolidays":
            if len(s) not in (4, 6):
                return None
            return [["l"] + sorted(self._canon(d, r) for d, r in self.items(lambda d, r: d.startswith(s)))]
        if c == "HolidayUtil.getHolidaysByTarget":
            if len(s) != 8:
                return None
            return [["l"] + sorted(self._canon(d, r) for d, r in self.items(lambda d, r: r[2] == s))]
        return None


def norm(v):
    """sort list answers: the order of records within a lookup is not part of the property"""
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list) and v[0][:1] == ["l"]:
        try:
            return [["l"] + sorted(v[0][1:])]
        except TypeError:
            return v
    return v
