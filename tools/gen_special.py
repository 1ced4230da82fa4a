#!/usr/bin/env python3
"""gen_special.py: sim/special.json, calendar edges the generators place requests at (made once on the unchanged tree; inputs only, no answers are judged by it)"""
import json
import os
import random
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from lunar_python import LunarYear, Solar, Lunar

rng = random.Random(7)
ys = list(range(1950, 2045)) + rng.sample(range(1900, 1950), 12) + rng.sample(range(2045, 2101), 10) + rng.sample(range(2, 1900), 45) + rng.sample(range(2101, 9990), 20)
ys += [1581, 1582, 1583, 1600]
terms, news, leaps, bazi = [], [], [], []
for y in sorted(set(ys)):
    for jd in LunarYear.fromYear(y).getJieQiJulianDays()[1:25:1]:
        s = Solar.fromJulianDay(jd)
        if 1 <= s.getYear() <= 9990:
            terms.append([s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()])
    s = Lunar.fromYmd(y, 1, 1).getSolar()
    news.append([s.getYear(), s.getMonth(), s.getDay()])
terms = rng.sample(terms, 1500)
for y in range(1, 3000):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m:
        leaps.append([y, m])
leaps = sorted(x for x in leaps if 1900 < x[0] < 2101) + rng.sample(leaps, 120)
for _ in range(160):
    y = rng.randint(1961, 2023)
    if rng.random() < 0.3:
        t = rng.choice([x for x in terms if 1961 <= x[0] <= 2023])
    else:
        t = [y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]
    for sect in (1, 2):
        e = Solar.fromYmdHms(*t).getLunar().getEightChar()
        e.setSect(sect)
        bazi.append([t[0], sect, e.getYear(), e.getMonth(), e.getDay(), e.getTime()])
json.dump({"terms": terms, "news": news, "leaps": leaps, "bazi": bazi}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "special.json"), "w"), ensure_ascii=False, separators=(",", ":"))
