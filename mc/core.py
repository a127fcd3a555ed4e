"""Shared machinery of the bounded exhaustive checks: process pool, violation and known-finding
bookkeeping, evidence, replay files.  Runs under the interpreter the repository itself runs on."""
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))
CASE_SECONDS = 120          # of processor time: one case normally takes milliseconds; only a hang gets here
CASE_WALL = 600


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("no answer within %d s" % CASE_SECONDS)


class Tally:
    """What one worker (and, merged, the whole run) measured."""

    def __init__(self):
        self.n = {}             # counters
        self.sets = {}          # name -> set of short hashes
        self.samples = []
        self.viol = []          # [(key, message, replay dict)]
        self.errors = []

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, obj):
        """records obj in a set; True iff it is new (to this worker)"""
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        s = self.sets.setdefault(name, set())
        if h in s:
            return False
        s.add(h)
        return True

    def sample(self, obj, cap=3):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, key, msg, replay):
        # keep a bounded number per key: the first is the witness
        if sum(1 for v in self.viol if v[0] == key) < 3 and len(self.viol) < 60:
            self.viol.append((key, msg, replay))
        self.add("violating_cases")

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples += o.samples
        self.viol += o.viol
        self.errors += o.errors


_SILENT = None


def silence():
    """the code under test prints a lot; send it to nowhere (in this process only)"""
    global _SILENT
    sys.stdout = open(os.devnull, "w")


class quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


_FN = None


def _task(item):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    t = Tally()
    try:
        _FN(item, t)
    except CaseTimeout as e:
        t.violation("hang", "%s: %s" % (e, _short(item)), {"task": _j(item)})
    except Exception:
        t.errors.append(traceback.format_exc() + "\n in task " + _short(item))
    finally:
        disarm()
    return t


def _short(o):
    s = repr(o)
    return s if len(s) < 400 else s[:400] + "..."


def _j(o):
    try:
        json.dumps(o)
        return o
    except Exception:
        return repr(o)


def arm(seconds=None):
    """(re)start the per-case timer; call at the beginning of each case"""
    signal.setitimer(signal.ITIMER_PROF, seconds or CASE_SECONDS)
    signal.alarm(CASE_WALL)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.alarm(0)


def _init(fn):
    global _FN
    _FN = fn
    silence()
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def run_tasks(fn, items, procs=None):
    """fn(item, tally) for every item, over a fork pool; returns the merged tally"""
    items = list(items)
    total = Tally()
    procs = min(procs or NPROC, max(1, len(items)))
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_init, initargs=(fn,)) as pool:
        for t in pool.imap_unordered(_task, items, chunksize=1):
            total.merge(t)
    total.add("tasks", len(items))
    return total


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def stripes(seq, n):
    """n interleaved slices: evens out cost that grows along seq"""
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"]
            if f["property"] == pid and f.get("status") != "fixed"]


def call(f, *a, **k):
    """(value, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except CaseTimeout:
        raise
    except Exception as e:
        return None, e


def num(x):
    """a finite float, or None"""
    try:
        v = float(x)
    except Exception:
        return None
    return v if v == v and v not in (float("inf"), float("-inf")) else None


def close(a, b, rel=1e-7, abs_=1e-9):
    a, b = num(a), num(b)
    if a is None or b is None:
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
