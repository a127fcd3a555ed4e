"""T01: the generator that turns notebooks into test files.  The script of the repository runs unchanged on a scratch
directory holding every small notebook; the files it writes are executed and must do, test by test, what the sections say."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from . import core

# kind -> lines; %d is the number of the line, so that every statement leaves a mark of its own
KINDS = {
    "h1": ["# # Heading"],
    "a": ["# ## Alpha one"],
    "n": ["# ## Beta [NOTEST]"],
    "t": ["# ## Gamma  [TEST] "],
    "nb": ["# ##\u00a0Delta"],
    "h3": ["# ### Details"],
    "no": ["# NBTEST: NOTEST_DEFAULT = NOTEST"],
    "yes": ["# NBTEST: notest_default=test"],
    "s": ["LOG.append(%d)"],
    "f": ["for i in range(2):", "    LOG.append((i, %d))", ""],
    "k": ["# some text"],
    "e": ["", "# +"],
}
TITLES = {"a": ("alpha_one", None), "n": ("beta", False), "t": ("gamma", True), "nb": ("delta", None)}
HEAD = ["# ---", "# jupyter:", "#   kernelspec:", "# ---", "", "LOG = []", "LOG.append('start')"]
NAMES = {"NBTest_0000_A.py": "test_0000_A.py", "NBTest_1.py": "test_1_.py", "NBTest_9.17_some-text.py": "test_9.17_some-text.py", "NBTest_backend.023_x.py": "test_backend.023_x.py", "NBTest_7_B.PY": "test_7_B.py",
         "NBTest_1_2_3.py": None, "test_0000_A.py": None, "NBTest_0000_C.ipynb": None, "NBTestX_1_A.py": None, "README": None, "NBTest.py": None, "nbtest_1_D.py": None, "XNBTest_1_E.py": None, "NBTest_2_F.txt": None}


def expected(kinds):
    """([marks of the preamble], [(title, is a test, marks)])"""
    pre, secs, default = ["start"], [], True
    for i, k in enumerate(kinds):
        if k in TITLES:
            name, fixed = TITLES[k]
            secs.append((name, default if fixed is None else fixed, []))
        elif k in ("no", "yes"):
            default = k == "yes"
        elif k in "sf":
            (secs[-1][2] if secs else pre).extend([i] if k == "s" else [(0, i), (1, i)])
    return pre, secs


def source(kinds):
    out = list(HEAD)
    for i, k in enumerate(kinds):
        out += [x % i if "%d" in x else x for x in KINDS[k]]
    return "\n".join(out) + "\n"


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mc_nb_")
        self.src = os.path.join(self.d, "resources", "NBTest")
        self.out = os.path.join(self.d, "carbon", "tests", "nbtest")
        os.makedirs(self.src); os.makedirs(self.out)
        shutil.copy(os.path.join(core.REPO, "resources", "NBTest", "ConvertNBTest.py"), self.src)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, fn, text):
        with open(os.path.join(self.src, fn), "w", encoding="utf-8") as f:
            f.write(text)

    def run(self):
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        core.disarm()
        return subprocess.run([sys.executable, os.path.join(self.src, "ConvertNBTest.py")], cwd=self.d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)

    def read(self, fn):
        p = os.path.join(self.out, fn)
        if not os.path.exists(p):
            return None
        with open(p, encoding="utf-8") as f:
            return f.read()


def true(t, key, cond, msg, case):
    t.add("comparisons")
    if not cond:
        t.violation(key, "%s: %s; notebook %s" % (key, msg, case), {"case": case})
    return cond


def judge(t, kinds, code):
    case = list(kinds)
    t.add("notebooks")
    t.seen("states", repr(expected(kinds)))
    if not true(t, "test file", code is not None, "missing", case):
        return
    ns = {"__name__": "generated"}
    try:
        exec(compile(code, "generated", "exec"), ns)
    except Exception as e:
        true(t, "generated file", False, "%r" % (e,), case)
        return
    pre, secs = expected(kinds)
    log = ns.get("LOG")
    true(t, "preamble", log == pre, "%r, expected %r" % (log, pre), case)
    marks = {}
    funcs = [(n, f) for n, f in ns.items() if callable(f) and getattr(f, "__module__", None) == "generated"]
    tests = [(n, f) for n, f in funcs if n.startswith("test")]
    want = [s for s in secs if s[1]]
    if not true(t, "number of tests", len(tests) == len(want), "%s for %s" % ([n for n, _ in tests], [s[0] for s in want]), case):
        return
    for (n, f), (title, _, m) in zip(tests, want):
        del log[:]
        try:
            f()
        except Exception as e:
            true(t, "test", False, "%s raises %r" % (n, e), case)
            continue
        true(t, "test", log == m, "%s does %r, section %s is %r" % (n, log, title, m), case)
        if sum(1 for s in secs if s[0] == title) == 1:
            true(t, "name", n == "test_" + title, "%s for %s" % (n, title), case)
    for title, is_test, m in secs:
        if not is_test and sum(1 for s in secs if s[0] == title) == 1:
            f = ns.get("notest_" + title)
            if true(t, "section that is not a test", callable(f), "%s is missing" % title, case):
                del log[:]
                f()
                true(t, "section that is not a test", log == m, "%r, expected %r" % (log, m), case)


def batch(books, t):
    with Scratch() as s:
        for i, kinds in enumerate(books):
            s.write("NBTest_%05d_X.py" % i, source(kinds))
        before = {f: os.path.getsize(os.path.join(s.src, f)) for f in os.listdir(s.src)}
        r = s.run()
        if not true(t, "generator", r.returncode == 0, r.stdout.decode("utf-8", "replace")[-300:], [list(b) for b in books[:3]]):
            return
        true(t, "sources", {f: os.path.getsize(os.path.join(s.src, f)) for f in os.listdir(s.src)} == before and len(os.listdir(s.out)) == len(books), "files", len(books))
        for i, kinds in enumerate(books):
            judge(t, kinds, s.read("test_%05d_X.py" % i))


def names(t):
    ok = ("a", "s")
    for n in (len(NAMES), 1):
        for group in [tuple(NAMES)] if n > 1 else [(x,) for x in NAMES]:
            with Scratch() as s:
                for fn in group:
                    s.write(fn, source(ok))
                r = s.run()
                true(t, "generator", r.returncode == 0, r.stdout.decode("utf-8", "replace")[-300:], list(group))
                want = sorted(NAMES[x] for x in group if NAMES[x])
                true(t, "files", sorted(os.listdir(s.out)) == want, "%s, expected %s" % (sorted(os.listdir(s.out)), want), list(group))
                for x in want:
                    judge(t, ok, s.read(x))
    for bad in ("# NBTEST: NOTEST_DEFAULT = MAYBE", "# NBTEST: OTHER = TEST", "# NBTEST: NOTEST_DEFAULT"):
        with Scratch() as s:
            s.write("NBTest_1_A.py", source(ok) + bad + "\n")
            r = s.run()
            true(t, "wrong option", r.returncode != 0 and not s.read("test_1_A.py"), bad, [bad])


def books(th):
    for n in range(0, 6 if th else 5):
        for b in itertools.product(KINDS, repeat=n):
            yield b
    if not th:      # more about sections and options only
        for b in itertools.product(("a", "n", "no", "yes", "s"), repeat=5):
            yield b


BOUNDS = {"T01": "all notebooks of up to 4 (thorough: 5) of 12 kinds of lines, and of 5 of the 5 kinds about sections and options, converted together in directories of 600 files; 14 file names; 3 wrong options"}


def check(pid, tier):
    bs = list(books(tier == "thorough"))
    items = [bs[i::max(1, len(bs) // 600)] for i in range(max(1, len(bs) // 600))] + ["names"]

    def work(x, t):
        core.disarm()
        if x == "names":
            names(t)
        else:
            batch(x, t)
            t.sample(repr(x[len(x) // 2]))
    tally = core.run_tasks(work, items)
    return tally, dict(states=len(tally.sets.get("states", ())), transitions=tally.n.get("notebooks", 0), exhaustive=True, bounds=BOUNDS[pid])


def replay(pid, case, t):
    c = case["case"]
    if isinstance(c, list) and c and all(x in KINDS for x in c):
        # also among others, as an option of one notebook may reach the next
        batch([tuple(c)], t)
        batch([("no",), ("yes",), ("no",), tuple(c)], t)
    else:
        names(t)
