"""How much each check explores, and how its evidence counts."""

QUICK = {"C01": 160, "C02": 280, "C03": 200, "C04": 180, "C05": 176, "C06": 70, "C07": 2000, "C08": 1280, "C09": 1920, "C10": 2000,
         "C11": 440, "C12": 520, "C13": 320, "C14": 220, "C15": 120, "C16": 118, "C17": 160, "C18": 120}
FACTOR = {"quick": 1, "thorough": 12}


def batches(prop, tier):
    return QUICK[prop] * FACTOR.get(tier, 1)


def wall_cap(tier):
    return 780 if tier == "quick" else 6 * 3600


def soft_cap(tier):
    """no new batch is begun after this many seconds"""
    return 420 if tier == "quick" else 5 * 3600


_COMMON = " One evaluation is one simulated run: an explicit program of client operations executed from a cold, freshly forked process under a seeded schedule, its answers judged afterwards. Distinct by hash of (program, faults that fired, control-transfer sequence)."
RULES = {
    "C01": "2-4 caller threads with 1-3 requests each (shared and own objects, related dates), 1-5 preemptions at seeded bytecode instructions or a random walk over code touching shared state. Non-trivial: control changed hands inside operations more often than there are clients.",
    "C02": "one caller issuing 4-60 (some up to 350) requests from a few families of near-identical dates, with rejected requests, repeats, siblings (one argument changed), floods, collections and clock movement between; or bursts of up to 500 requests through one entry point. Non-trivial: more than 3 different operations.",
    "C03": "1-3 callers; 1-3 exceptions (interrupt, timeout, cancellation, memory, recursion, exit) injected at seeded instructions, or a call run out of recursion depth; then further requests. Non-trivial: an exception actually struck inside a call or recursion was limited.",
    "C04": "1-2 callers; at seeded instructions of a call further library calls are made on the same thread. Non-trivial: a nested call was made.",
    "C05": "1-3 callers suspended at seeded instructions while another forks; the real child process answers requests. Non-trivial: a caller was suspended mid-call before or between forks.",
    "C06": "1-3 callers, one of which empties, reverses, extends, overwrites every list/dict it gets (also through objects shared with the others) and calls every setter. Non-trivial: at least one returned value was actually changed.",
    "C07": "1-2 callers taking turns with up to 25 corrections (1-8 days each, names, removals, re-additions, duplicates, partial records) and lookups, judged against the executable table. Non-trivial: at least one correction.",
    "C08": "2-3 callers correcting and looking up the same few days, preempted at seeded instructions; the recorded history is checked for linearizability. Non-trivial: control changed hands inside operations.",
    "C09": "corrections struck by injected exceptions at seeded instructions, then lookups and further corrections; linearizability with the struck correction optional. Non-trivial: an exception actually struck.",
    "C10": "1-2 callers taking turns with corrections and working-day steps of up to 250 days. Non-trivial: both kinds of operation.",
    "C11": "2-4 reverse lookups at different simulated years, with jumps at the n-th clock reading, year boundaries and a second caller; moments near month terms, late evening, January/February. Non-trivial: the clock was set to more than one value or jumped mid-call.",
    "C12": "groups of requests asked under a canonical interpreter and under others differing in hash seed, optimisation, zone, locale, directory, random state, collections and clock (jumping at each reading). Non-trivial: the group produced at least one non-error answer and the environment differed in at least two ways.",
    "C13": "2-3 callers sharing 1-2 lunar dates at 23:xx, choosing schools and reading, preempted at seeded instructions; identity and register linearizability. Non-trivial: control changed hands inside operations.",
    "C14": "1-2 callers reading 1-3 shared objects 6-20 times in seeded orders with other requests between. Non-trivial: more than 3 readings.",
    "C15": "1-3 callers reading 1-2 shared objects (some themselves copies, or received from another process), copying them (deepcopy, pickle), sending them to another process and reading the copies, with preemptions and exceptions inside the readings, and school choices. Non-trivial: something was copied or sent.",
    "C16": "7500 or more requests of one shape in one process (about ever different moments, rejected, short of stack, each from a thread of its own, corrections of the same days, one object stepped by ever different amounts, one object read over and over, the same three requests over and over); memory blocks, bytes reachable from the library and instructions per request at three checkpoints. Every run is non-trivial.",
    "C18": "1-3 callers importing the library for the first time (by different statements) and making requests, in a process in which none of it is loaded; preemptions and exceptions at seeded instructions of module and class bodies, and files that cannot be read; then imports and requests again. Non-trivial: a fault fired or control changed hands inside an import.",
    "C17": "1-2 callers making requests (own and shared objects, rejected ones, corrections), with exceptions injected, preemptions, and the rest of the process looked at, at seeded instructions inside calls, after calls and at the end. Non-trivial: an exception struck or a look was taken inside a call.",
}
for _k in RULES:
    RULES[_k] += _COMMON

ASSUMPTIONS = [
    "CPython 3.12 semantics: a directive acts between two bytecode instructions; C code (dict, list, str operations) is atomic",
    "a request's reference answer is the same code run alone in a freshly forked process that has only imported the library",
    "asynchronous exceptions strike where CPython can deliver them; in functions without cleanup code, between any two instructions",
    "sampled, not exhaustive: a clean batch is evidence, not proof",
]
