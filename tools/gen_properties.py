#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

LY = "lunar_python/LunarYear.py"; L = "lunar_python/Lunar.py"; S = "lunar_python/Solar.py"
H = "lunar_python/util/HolidayUtil.py"; SX = "lunar_python/util/ShouXingUtil.py"; E = "lunar_python/EightChar.py"
CACHE = ("process-wide lunar-year cache", "the most recently computed lunar year, shared by every conversion in the process", LY + " fromYear")
LAZY = ("decoded correction tables", "new-moon and solar-term correction strings, expanded on first use", SX + " calcShuo, calcQi")
HOL = ("holiday table and names in use", "the public-holiday records and festival names every lookup reads and every correction rewrites", H)

# ---------------------------------------------------------------- decided by simulation
p("C01", "Concurrent callers get the answers a lone caller would get",
  "When several threads use the library at once, for any mix of solar and lunar conversions, almanac attributes, solar terms, eight characters, fortune cycles, date arithmetic and holiday lookups, each answer (a value or a rejection) equals the answer the same request gets as the only call of a fresh process, whatever the interleaving. This holds from the very first calls of the process on, for objects each thread makes itself and for objects the threads only read together. No interleaving makes a call wait forever.",
  ["schedules"], "every interleaving of every set of concurrent read-only requests, cold or warm",
  "The tests call everything from one thread, so no interleaving other than the sequential one is ever executed.",
  [LY, L, S, SX, H, "lunar_python/LunarMonth.py", E],
  [("publication of the cached lunar year", LY + " fromYear"), ("first-use decoding of tables", SX + " calcShuo, calcQi")],
  [CACHE, LAZY], ["return values and exceptions of the public API, per thread"])
p("C02", "An answer never depends on what was asked before",
  "The answer to a request is a function of the request alone (and of the holiday corrections in force): after any sequence of other requests in the same process, including repeated, nearly identical, far-apart and rejected ones, it equals the answer the same request gets as the only call of a fresh process.",
  ["histories"], "every finite sequence of requests over all public entry points",
  "The tests ask fixed questions in one fixed order; a stale or wrongly keyed cached value shows only after particular earlier requests.",
  [LY, L, S, SX, H, "lunar_python/LunarMonth.py", "lunar_python/util/LunarUtil.py"],
  [("cache lookup keyed by lunar year", LY + " fromYear"), ("first-use decoding of tables", SX + " calcShuo, calcQi")],
  [CACHE, LAZY], ["return values and exceptions of the public API"])
p("C03", "A call cut short leaves the library fully usable",
  "If a call ends early by an exception raised at any point inside it (an asynchronous timeout or interrupt, exhausted memory or recursion depth, or arguments the library cannot handle), every later call from any thread still finishes instead of waiting forever, and gives the answer a fresh process gives. The call that was hit either raises or returns its right answer, never a wrong one.",
  ["fault_sequences", "crash_points"], "every request, every point inside it at which an exception can surface, every following set of requests from the same and other threads",
  "No test interrupts a call, and after the few that expect a rejection nothing checks that the next call is unaffected.",
  [LY, L, SX, H], [("release of the year-cache guard when the computation fails", LY + " fromYear"), ("tables and caches replaced only by complete values", SX + " calcShuo, calcQi; " + LY + " fromYear")],
  [CACHE, LAZY], ["completion, return values and exceptions of later calls"])
p("C04", "Library calls may be nested inside one another",
  "If code that runs in the middle of a library call on the same thread (a signal handler, a finalizer, a trace or profile hook) itself makes library calls, then both the nested calls and the interrupted call finish, each with the answer it gives alone.",
  ["schedules"], "every pair of interrupted and nested requests, every point of interruption",
  "No test re-enters the library; a guard that is not re-entrant, or a scratch variable shared by calls, only shows when one call is suspended inside another.",
  [LY, L, SX, H], [("guard and publication of the year cache", LY + " fromYear")], [CACHE, LAZY],
  ["completion and return values of the nested and the interrupted call"])
p("C05", "A process forked at any moment can use the library",
  "If a process forks while other threads are anywhere inside library calls, including holiday corrections, every conversion, almanac request, holiday lookup and holiday correction made in the child finishes and gives the answer a fresh process gives. The child starts from the holiday table as it was at the fork: every correction finished before it is in force, one under way is in force wholly or not at all, and what parent and child correct afterwards does not reach the other. The parent's calls are not affected.",
  ["crash_points", "schedules"], "every point inside another thread's call at which the fork can happen, every request and correction then made in the child",
  "No test forks; a guard held, or a table half replaced, at the instant of the fork is inherited by the child forever.",
  [LY, SX, H], [("guard and publication of the year cache", LY + " fromYear"), ("one-step publication of names and records without a lock", H + " fix")], [CACHE, LAZY, HOL], ["completion and return values in the child and the parent"])
p("C06", "Callers cannot corrupt each other through returned values",
  "Whatever a caller does to the lists, dictionaries and record objects it got back from the library (emptying, reordering, extending or overwriting them, calling their setters), requests made by other callers, before, during or after, get the answers a fresh process gives; this includes readings of one object the callers share. (The chart of a lunar date, EightChar, belongs to the date and is deliberately shared; its school setting is not covered here.)",
  ["histories", "schedules"], "every returned container or record, every in-place change to it, every other request, sequential or concurrent",
  "The tests only read what they get back, so a list that is the library's own working state looks the same as a private copy.",
  [LY, L, E, "lunar_python/Foto.py", "lunar_python/Tao.py", H],
  [("copies handed out instead of shared state", LY + " getMonths, getJieQiJulianDays; " + E + " hidden stems; " + L + " festivals")],
  [CACHE, ("constant tables", "dictionaries and lists from which answers are read", "lunar_python/util/LunarUtil.py, SolarUtil.py, FotoUtil.py, TaoUtil.py")],
  ["return values of requests by callers other than the one that changed its copy"])
p("C07", "Holiday corrections act exactly as documented, in any sequence",
  "After any sequence of holiday corrections (replacing the festival names, and replacing, adding or removing days, several per call), every lookup by day, month, year or festival date returns exactly the matching records of the table those corrections define: a corrected day carries its latest correction, a removed day has none, an untouched day is unchanged, and no record is missing, duplicated or garbled.",
  ["histories"], "every sequence of well-formed corrections interleaved with every lookup",
  "One test makes one removal and one lookup; results depend on where records ended up after the whole sequence of corrections.",
  [H, "lunar_python/Holiday.py"], [("rewriting of the table by a correction", H + " fix"), ("search of the table", H + " lookups")], [HOL],
  ["HolidayUtil lookups"])
p("C08", "Holiday lookups and corrections are atomic under concurrency",
  "When threads look up and correct holidays at the same time, the results are those of some one-at-a-time order of the same calls consistent with the order in which non-overlapping calls happened: no correction is lost, and no lookup sees half of one (records without their names, a garbled or missing untouched day).",
  ["schedules"], "every interleaving of corrections and lookups",
  "The tests are single-threaded; a correction reads the shared table, rebuilds it and writes it back in many steps.",
  [H], [("one-step publication of names and records", H + " fix"), ("single read of the table per lookup", H + " lookups")], [HOL], ["HolidayUtil lookups and corrections, per thread"])
p("C09", "An interrupted holiday correction is all or nothing",
  "If a holiday correction is cut short by an exception raised at any point inside it, the table and names afterwards are either exactly those before it or exactly those it asked for, whatever the number of days in the correction; later corrections and lookups, from any thread, finish and behave normally.",
  ["crash_points", "fault_sequences"], "every correction, every point inside it at which an exception can surface, every following call",
  "No test interrupts a correction.",
  [H], [("one-step publication of names and records as the last action of a correction", H + " fix")], [HOL], ["HolidayUtil lookups after the interruption"])
p("C10", "Working-day stepping always follows the table in force",
  "Stepping a date forward or backward by n working days lands, at every moment of any history of holiday corrections, on the n-th working day according to the table then in force: a listed day counts exactly if it is listed as a make-up working day, an unlisted day exactly if it is not a Saturday or Sunday; the time of day is kept, and a step of zero stays put.",
  ["histories"], "every sequence of corrections, start date, direction and count",
  "The tests step a few times over the built-in table only.",
  [S, H], [("day-by-day stepping with a table lookup per day", S + " next")], [HOL], ["Solar.next with working days only"])
p("C11", "Reverse eight-character lookup is complete up to the current year",
  "For every moment in a year after the base year and not later than the year the clock shows when the call is made, looking up the moment's own eight characters (under either day-boundary school) returns a moment in that same two-hour period; every moment returned has exactly the requested characters and is not before the base year, and results are in strictly ascending order. As the clock advances, results are only ever added at the end; if the clock moves during the call, the result is the right one for a year the clock showed during it, and never for one it showed only at an earlier call.",
  ["schedules", "histories", "inputs"], "every clock reading and movement of the clock before, between and during calls, every moment and base year",
  "The tests use a handful of charts and whatever year the test machine's clock shows; they can neither advance nor step the clock.",
  [S], [("reading of the current year at each call", S + " fromBaZi"), ("candidate enumeration and verification", S + " fromBaZi")],
  [("current year", "upper end of the search, read from the system clock", S + " fromBaZi")], ["Solar.fromBaZi"])
p("C12", "Answers do not depend on the environment",
  "Apart from the upper end of the reverse eight-character lookup, which follows the clock's year, every answer, including the order of listed items, is the same whatever the time and date of the system clock and however it jumps, the time zone and locale, the interpreter's hash seed and optimisation level, the working directory, environment variables, the state of the process's random generator, garbage collector, decimal arithmetic context, warning filters, arguments and standard streams, and which thread asks.",
  ["configurations", "schedules"], "every request under every environment and every movement of the clock",
  "The tests run in one environment (fixed hash seed, UTC) at the real current time.",
  ["lunar_python"], [("pure integer and floating-point computation over constant tables, ordered containers only", "lunar_python")], [],
  ["return values and exceptions of the public API across environments"])
p("C13", "A lunar date shared by threads has one chart, and its school sticks",
  "A lunar date object gives every caller, from whichever thread and however the first requests interleave, the same eight-character chart object; the day-boundary school chosen through it by one caller is what every later reading through that date uses, so concurrent choices and readings behave like a single shared setting.",
  ["schedules"], "every interleaving of first and later requests for the chart, settings and readings",
  "The tests use each date from one thread; a chart created on first request can be created twice when two first requests overlap.",
  [L, E], [("creation of the date's chart", L + " getEightChar"), ("chart's school setting", E + " setSect")],
  [("chart of a lunar date", "the chart object and its day-boundary school", L + " getEightChar")], ["getEightChar, getBaZi and chart readings on a shared date"])
p("C14", "Reading an object never changes it",
  "Once obtained, a date, month, year, week, chart, fortune cycle or other calendar object keeps giving the same answers however often and in whatever order its readers are called, and however much other use of the library happens in between.",
  ["histories"], "every object kind, every sequence of readers on it, every other requests in between",
  "The tests read each object once or twice, immediately after making it.",
  ["lunar_python"], [("objects hold their own computed fields; readers do not write", L + ", " + LY + ", " + E)], [CACHE],
  ["repeated reads of one object"])

p("C15", "Objects survive copying, pickling and transfer to another process",
  "A calendar object (date, month, year, week, chart, fortune cycle, holiday record and so on) can be copied shallowly or deeply, pickled under every protocol that pickles ordinary objects, and sent to another process, at any moment of its life, also after, between and during readings of it by other threads. The copy gives every reading the answer the original gives, including the day-boundary school chosen on its chart, and no later choice made through a deep copy or a received object changes the original or the other way round. It stays so when readings before the copy were cut short by an exception.",
  ["histories", "schedules", "fault_sequences"], "every object, every history of readings, school choices and interruptions before the copy, every kind of copy and receiving process",
  "No test copies or pickles an object; state kept for speed inside an object (locks, memos keyed by identity or hash, sentinel markers) breaks only in the copy or the receiving process.",
  ["lunar_python", L, E], [("objects made of plain fields only", "lunar_python"), ("chart of the date made on first request", L + " getEightChar")],
  [("fields of an object", "numbers, strings, lists and other calendar objects", "lunar_python"), ("chart of a lunar date", "the chart object and its day-boundary school", L + " getEightChar")],
  ["readings of copies, unpickled and received objects"])
p("C16", "Serving any number of requests takes bounded memory and bounded work per request",
  "However many requests a process serves, of whatever shape (ever new dates, years, charts and arguments, repeated and rejected ones, ones cut short, from ever new threads, any number of corrections of the same days, one object asked again and again), what the library keeps between requests stays bounded, and a request costs no more than the same kind of request at the start.",
  ["histories"], "every endless sequence of requests of every kind",
  "Each test makes a handful of requests; what is kept per request, or scanned in proportion to what was kept, shows only after thousands.",
  [LY, L, H, SX, "lunar_python/util/LunarUtil.py"], [("one cached lunar year", LY + " fromYear"), ("corrections replace records of their day", H + " fix")],
  [CACHE, LAZY, HOL], ["memory reachable from the library and instructions executed per request"])

p("C17", "Library calls leave the rest of the process as it was",
  "Whether a call returns, is rejected or is cut short by an exception raised at any point inside it, what is not the library's own stays as it was, also as seen by other threads while the call runs: objects passed in as arguments, environment variables, working directory, locale and time zone, recursion limit, thread switch interval, garbage-collector settings, signal handlers, hooks and streams, the shared random-number generator, decimal, calendar, warning and logging settings, the module search path, and the standard modules themselves. A call writes nothing to the output streams or to files, and leaves no thread, process or open file behind.",
  ["schedules", "fault_sequences", "inputs"], "every request, every point at which it is looked at from another thread or cut short",
  "The tests look at answers only; a setting changed for the time of a call shows to another thread or after an interruption, one left changed shows in unrelated code.",
  ["lunar_python"], [("no process-wide setting is touched; corrections copy the list of names they are given", H + " fix"), ("the clock is the only thing read from outside", S + " fromBaZi")],
  [("process-wide settings", "everything a Python process shares between its parts", "lunar_python")],
  ["the state of the process between, during and after calls"])

p("C18", "The first import may be concurrent or cut short and tried again",
  "However the library is first imported in a process - by whichever import statement of its public names, by several threads at once, or with the import cut short at any point by an exception (an interrupt, a timeout, lack of memory, a file that cannot be read just then) and tried again - an import tried again with nothing in its way finishes, every public name is the same class for every caller, and requests give the answers a process gives that imported the library undisturbed. (Left out: a submodule imported by its own name while another thread imports the package, and what a caller gets whose import overlapped one that was cut short; both are decided by Python's import system.)",
  ["schedules", "fault_sequences"], "every import statement, every interleaving of first imports and first requests, every point at which an import is cut short",
  "A test process imports the library once, undisturbed, before the first test; set-up code that is not repeatable, or that others can see half done, shows only when an import is interrupted or raced.",
  ["lunar_python/__init__.py", "lunar_python/util/__init__.py", "lunar_python"], [("modules that only define classes and literals; package binding every public class before it is importable", "lunar_python/__init__.py")],
  [("module and class attributes set during import", "the library's tables and public names as they are after an undisturbed import", "lunar_python")],
  ["the public names, and answers after the first import"])

# ---------------------------------------------------------------- pure functions: not decided here
def pure(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs"], text, why, files, mech)
pure("C21", "Solar and lunar dates convert back and forth without loss",
     "Every valid solar date has exactly one lunar date and converting it back gives the same solar date and time, and vice versa for every valid lunar date.",
     "all dates the library supports", "Tests sample some dozens of dates out of millions.", [L, S, LY], [("conversion by offset from month starts", L + " fromSolar, constructor")])
pure("C22", "Solar date arithmetic follows one day line",
     "Stepping by days, months, years and hours, differences in days and minutes, comparison, weekday and Julian day numbers all agree with one continuous count of days in which 1582-10-15 follows 1582-10-04.",
     "all dates and offsets", "Tests sample a few steps, mostly near month ends and October 1582.", [S, "lunar_python/util/SolarUtil.py"], [("month-length arithmetic", S + " nextDay, subtract, getJulianDay")])
pure("C23", "Lunar months tile the calendar",
     "Consecutive lunar months of consecutive lunar years follow each other without gap or overlap, have 29 or 30 days, number 12 or 13 per year with at most one leap month, and stepping by months visits each exactly once.",
     "all lunar years", "Tests look at single years.", [LY, "lunar_python/LunarMonth.py"], [("new-moon computation and leap placement", LY + " compute")])
pure("C24", "Solar terms are complete, ordered and consistently found",
     "Every year has its 24 solar terms in order about 15 days apart, and next, previous and current term queries agree with the table by day and by instant.",
     "all dates", "Tests sample single terms.", [L, SX], [("term table and nearest-term search", L)])
pure("C25", "Stem-branch pillars advance as calendars require",
     "Day pillars advance by one per day and hour pillars by one per two-hour period; year and month pillars change exactly at new year, start-of-spring day or instant and month-term day or instant according to the variant asked for.",
     "all instants", "Tests sample single instants.", [L, E], [("pillar computation", L)])
pure("C26", "Eight-character derived attributes agree with the pillars",
     "Elements, sounds, hidden stems, ten gods, life stages, decade and void, conception and palace attributes are the ones determined by the pillars shown.",
     "all charts", "Tests check a few charts.", [E], [("table lookups on the pillars", E)])
pure("C27", "Fortune cycles start and advance correctly",
     "The start of fortune is the distance to the adjoining month term at the documented exchange rate, and decade, year, small and month cycles follow each other contiguously with pillars advancing in the chart's direction.",
     "all charts, genders and schools", "Tests check a few charts.", ["lunar_python/eightchar/Yun.py", "lunar_python/eightchar/DaYun.py"], [("start and cycle arithmetic", "lunar_python/eightchar")])
pure("C28", "Weeks, months, seasons and half-years partition the year",
     "Each solar year's days are partitioned by its months, seasons and half-years and, for each first weekday, by weeks, with consistent indices and stepping.",
     "all years and week starts", "Tests sample a few weeks.", ["lunar_python/SolarWeek.py", "lunar_python/SolarMonth.py", "lunar_python/util/SolarUtil.py"], [("calendar partitioning", "lunar_python/SolarWeek.py")])
pure("C29", "Buddhist and Taoist calendars agree with the lunar calendar",
     "Their years, months, days and fast or assembly days are the lunar date's, offset by the era, and building one from its own numbers gives it back.",
     "all lunar dates", "Tests sample a few dates.", ["lunar_python/Foto.py", "lunar_python/Tao.py"], [("era offset", "lunar_python/Foto.py, lunar_python/Tao.py")])
pure("C30", "Suitable and unsuitable activities decode to one entry per day and hour",
     "For every pairing of pillars, the suitable and unsuitable activities and the good and bad spirits are non-empty, free of repeats and consist of known names.",
     "all pillar pairs", "Tests sample a few days.", ["lunar_python/util/LunarUtil.py"], [("decoding of packed tables", "lunar_python/util/LunarUtil.py")])
pure("C31", "Invalid dates are refused and valid ones accepted",
     "Constructing a solar or lunar date succeeds exactly for dates and times that exist.",
     "all argument combinations", "Tests try a few invalid dates.", [S, L], [("constructor checks", S + ", " + L)])
pure("C32", "Festivals and seasonal counts fall on their defined days",
     "Fixed, weekday-based, lunar and term-based festivals, the nines, the dog days, the five-day periods, nine stars and mansions fall on the days their definitions give, each once per year or cycle.",
     "all dates", "Tests sample some dates.", [L, S], [("per-date rules", L + ", " + S)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
