"""Runs under an interpreter that has sympy: the formula collection of the white paper and its library.
   worker.py <repository> W01|W02 <tier> <slice> <slices>      prints one line of JSON"""
import contextlib
import io
import itertools
import json
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
REPO, PID, TIER, K, N = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
WP = os.path.join(REPO, "resources", "whitepaper")
sys.path.insert(0, WP)
OUT = {"n": {}, "viol": [], "points": [], "errors": []}


def add(k, n=1):
    OUT["n"][k] = OUT["n"].get(k, 0) + n


def true(key, cond, msg, case):
    add("comparisons")
    if not cond and sum(1 for v in OUT["viol"] if v[0] == key) < 2 and len(OUT["viol"]) < 40:
        OUT["viol"].append([key, "%s: %s; case %s" % (key, msg, case), {"case": case}])
    return cond


# ---------------------------------------------------------------- W01

# key -> the variable the equation gives "as a function of ..." (None: an implicit equation)
KEYS = {
    "PIE": "y", "PINE": "y", "PIQE": "Q", "PIQ2E": None, "PIRE": "y", "PIRIE": "y", "PIA1E": None, "SE": None, "SRE": None, "SRIE": None, "MSE": None,
    "MPE": "P_{marg}", "MPERev": "P_{marg}", "MPQXiE": "P_{marg}", "MPQYiE": "P_{marg}", "MPWYiE": "P_{marg}", "P0WYiE": "P_0", "PLE": "\\kappa", "KPYDE": "\\kappa", "GSE": None,
    "MPRE": "P_{marg}", "MPRIE": "P_{marg}", "BDE": "B", "SDE": "S", "BSPIE": None, "BSPIYE": "y", "BSPIXE": "x", "BSSE": "\\Delta{y}", "BSRSE": "\\Delta{x}", "MPBSE": "P_{marg}",
    "YMPE": "y", "QGDE": "Q", "GQE": "\\Gamma", "GFQE": None, "XiDE": "x_{int}", "YiDE": "y_{int}", "XiQE": "x_{int}", "YiQE": "y_{int}", "PxDE": "P_x", "PyDE": "P_y", "PXYE": "P_0", "PXYiE": "P_0",
    "QPE": "Q", "WDE": "w", "WE": "w", "PPE": "P_0", "XiPE": "x_{int}", "YiPE": "y_{int}", "XADE": "x_{asym}", "YADE": "y_{asym}", "YAXDE": "y_{asym}", "KPDE": "\\kappa", "RXE": "x_0", "RXIE": "x"}
# what each is a function of, or relates
VARS = {
    "PIE": "P_0 \\Gamma x x_0 y", "PINE": "P_0 \\Gamma x y y_0", "PIQE": "Q x x_{int} y y_{int}", "PIQ2E": "Q x x_{int} y y_{int}", "PIRE": "P_0 \\Gamma r x y", "PIRIE": "P_0 \\Gamma \\rho x_0 y",
    "PIA1E": "\\kappa x x_{asym} y y_{asym}", "SE": "P_0 \\Delta{x} \\Delta{y} \\Gamma x x_0", "SRE": "P_0 \\Delta{x} \\Delta{y} \\Gamma r x", "SRIE": "P_0 \\Delta{x} \\Delta{y} \\Gamma \\rho x_0",
    "MSE": "P_0 \\Gamma dx dy x x_0", "MPE": "P_0 P_{marg} \\Gamma x x_0", "MPERev": "P_0 P_{marg} \\Gamma y y_0", "MPQXiE": "P_0 P_{marg} Q x x_{int}", "MPQYiE": "P_0 P_{marg} Q y y_{int}",
    "MPWYiE": "P_0 P_{marg} w y y_{int}", "P0WYiE": "P_0 P_{marg} w y y_{int}", "PLE": "\\Gamma \\kappa k", "KPYDE": "\\Gamma \\kappa x_0 y_0", "GSE": "P_x P_y \\kappa k", "MPRE": "P_0 P_{marg} \\Gamma r",
    "MPRIE": "P_0 P_{marg} \\Gamma \\rho", "BDE": "B P_x", "SDE": "P_x P_y S", "BSPIE": "B S x y y_{int}", "BSPIYE": "B S x y y_{int}", "BSPIXE": "B S x y y_{int}", "BSSE": "B S \\Delta{x} \\Delta{y} y y_{int}",
    "BSRSE": "B S \\Delta{x} \\Delta{y} y y_{int}", "MPBSE": "B P_{marg} S y y_{int}", "YMPE": "B P_{marg} S y y_{int}", "QGDE": "Q \\Gamma", "GQE": "Q \\Gamma", "GFQE": "Q \\Gamma", "XiDE": "\\Gamma x_0 x_{int}",
    "YiDE": "\\Gamma y_0 y_{int}", "XiQE": "Q x_0 x_{int}", "YiQE": "Q y_0 y_{int}", "PxDE": "P_0 P_x Q", "PyDE": "P_0 P_y Q", "PXYE": "P_0 x_0 y_0", "PXYiE": "P_0 x_{int} y_{int}", "QPE": "P_x P_y Q", "WDE": "P_x P_y w",
    "WE": "Q w", "PPE": "P_x P_y P_0", "XiPE": "P_x P_y x_{int} y_{int}", "YiPE": "P_x P_y x_{int} y_{int}", "XADE": "\\Gamma x_0 x_{asym}", "YADE": "\\Gamma y_0 y_{asym}", "YAXDE": "P_0 \\Gamma x_0 y_{asym}",
    "KPDE": "P_0 \\Gamma \\kappa x_0", "RXE": "r x x_0", "RXIE": "\\rho x x_0"}
OUT_AMOUNT = ("BSSE", "BSRSE")      # here Delta y is what the pool pays, elsewhere its change


def point(mp, P0, Q, x0, fx, fd):
    """one pool and one trade, from first principles: the hyperbola through (0, yint), (xint, 0) with end prices Px, Py"""
    Px, Py = P0 * Q, P0 / Q
    g = 1 - mp.sqrt(Q)
    y0 = P0 * x0
    # real reserves: virtual curve (x+a)(y+b)=k with price Py at x=0 and Px at y=0, touching (x0, y0) at price P0
    k = (x0 / g) * (y0 / g)
    a, b = mp.sqrt(k / Py), mp.sqrt(k * Px)
    xint, yint = k / b - a, k / a - b
    x = {"0": mp.mpf(0), "x0": x0, "1": xint}.get(fx) if fx in ("0", "x0", "1") else mp.mpf(fx) * xint
    y = k / (x + a) - b
    if fx == "1":
        y = mp.mpf(0)
    x1 = mp.mpf(fd) * xint
    y1 = k / (x1 + a) - b
    pm = k / (x + a) ** 2
    v = {"x": x, "x_0": x0, "x_{int}": xint, "dx": mp.mpf(1), "\\Delta{x}": x1 - x, "y": y, "y_0": y0, "y_{int}": yint, "dy": -pm, "\\Delta{y}": y1 - y, "P_0": P0, "P_{marg}": pm, "P_x": Px, "P_y": Py, "Q": Q,
         "\\Gamma": g, "w": Py / Px, "B": mp.sqrt(Px), "S": mp.sqrt(Py) - mp.sqrt(Px), "x_{asym}": -a, "y_{asym}": -b, "\\kappa": k, "k": x0 * y0, "r": x0 / x if x else None, "\\rho": x / x0}
    return v


def load():
    ns = {"__name__": "CarbonCalculations"}
    path = os.path.join(WP, "CarbonCalculations.py")
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(open(path).read(), path, "exec"), ns)
    return ns


def w01():
    import mpmath as mp
    import sympy
    mp.mp.dps = 40
    ns = load()
    F = ns["FORMULAS"]
    eqs = {}
    for k, lhs in KEYS.items():
        e = F.get(k)
        if not true("formula", e is not None and hasattr(e, "lhs"), "no equation %s in FORMULAS" % k, [k]):
            continue
        if K == 0:
            names = {str(s) for s in e.free_symbols}
            true("variables", names == set(VARS[k].split()), "%s relates %s, expected %s" % (k, sorted(names), sorted(VARS[k].split())), [k])
            if lhs:
                true("given variable", str(e.lhs) == lhs, "%s (%s) gives %s, expected %s" % (k, F.gettitle(k), e.lhs, lhs), [k])
            true("title", isinstance(F.gettitle(k), str) and F.gettitle(k) and F.getcomment(k), k, [k])
            true("latex", F.getlatex(k) == sympy.latex(e), k, [k])
        syms = sorted(e.free_symbols, key=str)
        eqs[k] = ([str(s) for s in syms], sympy.lambdify(syms, e.lhs, "mpmath"), sympy.lambdify(syms, e.rhs, "mpmath"))
    th = TIER == "thorough"
    Ps = ("0.0005", "1", "1500", "25000000") + (("3e-12", "0.7", "8e13") if th else ())
    Qs = ("0.04", "0.5", "0.9", "0.995") + (("0.0001", "0.3", "0.99999") if th else ())
    x0s = ("0.01", "1", "300000") + (("1e-9", "17.5", "1e15") if th else ())
    fxs = ("0", "0.1", "x0", "0.5", "0.9", "1")
    fds = ("0", "0.1", "0.5", "0.93", "1") + (("0.3", "0.75") if th else ())
    cases = list(itertools.product(Ps, Qs, x0s, fxs, fds))[K::N]
    for case in cases:
        P0, Q, x0 = (mp.mpf(z) for z in case[:3])
        v = point(mp, P0, Q, x0, case[3], case[4])
        add("points")
        inner = case[3] in ("0.1", "0.5", "0.9") and case[4] != case[3]
        for k, (names, L, R) in eqs.items():
            if any(v[n] is None for n in names) or (k == "PIQE" and case[3] in ("0", "1")):
                continue
            val = [-v[n] if n == "\\Delta{y}" and k in OUT_AMOUNT else v[n] for n in names]
            ok, how = holds(mp, L, R, val)
            true("holds", ok, "%s at %s: %s" % (k, dict(zip(names, map(str, val))), how), [k] + list(case))
            if ok and inner:
                for i, n in enumerate(names):
                    w = list(val)
                    w[i] *= mp.mpf("1.001")
                    o, how = holds(mp, L, R, w, True)
                    true("determines", not o, "%s does not depend on %s" % (k, n), [k] + list(case))
        if case[0] in Ps[:4] and case[1] in Qs[:4] and case[2] in x0s[:3]:
            OUT["points"].append([list(case), {n: float(z) for n, z in v.items() if z is not None}])


def holds(mp, L, R, val, strict=False):
    try:
        a, b = L(*val), R(*val)
        if not (mp.isfinite(a) and mp.isfinite(b)):
            return False, "%s = %s" % (a, b)
        scale = max(abs(mp.mpmathify(a)), abs(mp.mpmathify(b)))
        # y near zero is a difference of the intercepts
        return bool(abs(a - b) <= mp.mpf("1e-22") * scale or not strict and abs(a - b) <= mp.mpf("1e-22") * max([abs(z) for z in val])), "%s = %s" % (mp.nstr(a, 12), mp.nstr(b, 12))
    except Exception as e:
        return False, "%r" % (e,)


# ---------------------------------------------------------------- W02

OPS = {
    "a1": ("add", dict(key="a", item=1)),
    "a2": ("add", dict(key="a", item=2, title="T", comment="C", tagstr="X, y ")),
    "nb": ("add", dict(key="b", item=3, ns="n")),
    "nbx": ("add", dict(key="b", item=4, ns="n", tagstr="y", aliases=["b2"])),
    "cx": ("add", dict(key="c", item=5, title="c", aliases=["c1", "c2"])),
    "v": ("addvar", dict(key="v", item=6, comment="var")),
    "mv": ("addvar", dict(key="v", item=7, ns="m", title="V")),
    "za": ("alias", ("z", "a", None)),
    "zb": ("alias", ("z", "b", "n")),
    "qnb": ("alias", ("q", "n.b", None)),
    "dn": ("default", "n"),
    "d0": ("default", None),
    "from": ("addfrom", None),
    "fromm": ("addfrom", "m"),
}
NAMES = ["a", "n.a", "b", "n.b", "n.b2", "b2", "c", "c1", "n.c", "n.c2", "v", "m.v", "n.v", "z", "n.z", "q", "p", "p2", "m.p", "m.p2", "n.s", "m.n.s", "nothing"]


class Ref:
    def __init__(self, default=None):
        self.d, self.default = {}, default

    def add(self, key, item, title=None, comment=None, tagstr=None, ns=None, aliases=(), var=False):
        ns = self.default if ns is None else ns
        q = (lambda x: "%s.%s" % (ns, x)) if ns else (lambda x: x)
        tags = set() if tagstr is None else {t.strip().lower() for t in tagstr.split(",")}
        self.d[q(key)] = (item, title, comment, q(key), var, tags)
        for a in aliases:
            self.d[q(a)] = self.d[q(key)]

    def alias(self, a, key, ns):
        q = (lambda x: "%s.%s" % (ns, x)) if ns else (lambda x: x)
        if q(key) not in self.d:
            return False
        self.d[q(a)] = self.d[q(key)]
        return True


def w02():
    import sympy
    from formulalib import Formulas
    from taglib import Tags
    S = sympy.symbols("s0:12")
    item = lambda i: S[i] ** 2 / S[i + 1]
    depth = 5 if TIER == "thorough" else 4
    roots = list(itertools.product((None, "n"), (True, False), OPS))[K::N]
    for default, roe, first in roots:
        for rest in itertools.product(OPS, repeat=depth - 1):
            # judged after every step: a shorter history is a prefix
            history(Formulas, item, default, roe, (first,) + rest, sympy)
            add("histories")
    if K == 0:
        tags(Tags)
    algebra(sympy)


def other(Formulas, item):
    o = Formulas()
    o.add("p", item(8), title="P", tagstr="o", aliases=["p2"])
    o.add("s", item(9), ns="n", comment="S")
    return o


LAST = {}


def history(Formulas, item, default, roe, ops, sympy):
    f, ref = Formulas(raiseonerror=roe, defaultns=default, version="1", date="d"), Ref(default)
    case = [default, roe, list(ops)]
    for k, op in enumerate(ops):
        kind, x = OPS[op]
        tag = "%s then %s" % (case[:2], ops[:k + 1])
        try:
            if kind in ("add", "addvar"):
                kw = dict(x)
                kw["item"] = item(kw["item"])
                r = getattr(f, kind)(**kw)
                true("returns the formula", r == kw["item"], tag, case)
                ref.add(var=kind == "addvar", **kw)
            elif kind == "alias":
                ok = ref.alias(*x)
                try:
                    f.alias(*x)
                    true("alias of nothing", ok, tag, case)
                except KeyError:
                    true("alias", not ok, tag, case)
            elif kind == "default":
                r = f.setdefaultns(x)
                true("previous namespace", r == ref.default, "%r: %s" % (r, tag), case)
                ref.default = x
            else:
                o = other(Formulas, item)
                r = f.addfrom(o, x)
                true("chaining", r is f, tag, case)
                q = lambda n: "%s.%s" % (x, n) if x and "." not in n else n
                e = (item(8), "P", None, q("p"), False, {"o"})
                ref.d[q("p")] = ref.d[q("p2")] = e
                ref.d["n.s"] = (item(9), None, "S", "n.s", False, set())
                true("other unchanged", set(o.keys()) == {"p", "p2", "n.s"} and not o.isalias("p") and o.isalias("p2"), tag, case)
        except Exception as e:
            true("operation", False, "%s: %r" % (tag, e), case)
            return
        if ops[:k + 1] == LAST.get((default, roe, k)):
            continue            # this prefix has been judged
        LAST[(default, roe, k)] = ops[:k + 1]
        try:
            judge(f, ref, roe, tag, case, sympy)
        except Exception as e:
            true("access", False, "%s: %r" % (tag, e), case)


def judge(f, ref, roe, tag, case, sympy):
    add("states")
    d = ref.d
    true("keys", sorted(f.keys()) == sorted(d), "%s: %s, expected %s" % (tag, f.keys(), sorted(d)), case)
    for var in (True, False):
        true("keys of kind", sorted(f.keys(vars=var)) == sorted(k for k in d if d[k][4] is var), "%s: %s" % (tag, f.keys(vars=var)), case)
    for ns in ("", "n", "m"):
        true("keys of namespace", sorted(f.keys(ns=ns)) == sorted(k for k in d if (k.split(".")[0] if "." in k else "") == ns), "%s: %s %s" % (tag, ns, f.keys(ns=ns)), case)
    true("all", f.getall().keys() == d.keys() and all(f.getall()[k].item == d[k][0] for k in d), tag, case)
    for k in NAMES:
        e = d.get(k)
        if e is None:
            true("missing", f.get(k) is None and f.get(k, 5) == 5 and f[k] is None and f.getitem(k, raiseonerror=False) is None and f.hastag(k, "y") is None and f.isalias(k) is None
                 and f.getlatex(k, raiseonerror=False) is None, "%s: %s" % (tag, k), case)
            for g in (f.getitem, f.getcomment, f.gettitle, f.getlatex, f.getfullitem):
                try:
                    r = g(k)
                    true("missing key", not roe and r is None, "%s: %s gives %r" % (tag, k, r), case)
                except KeyError:
                    true("missing key", roe, "%s: %s" % (tag, k), case)
        else:
            got = (f.get(k), f.gettitle(k), f.getcomment(k), f.getfullitem(k).mainkey, f.getfullitem(k).isvariable)
            true("entry", got == e[:5] and f[k] == e[0] and f.getitem(k) == e[0], "%s: %s is %s, expected %s" % (tag, k, got, e), case)
            true("alias", f.isalias(k) is (k != e[3]), "%s: %s" % (tag, k), case)
            for t in ("x", "y", "o", " Y "):
                true("tag", f.hastag(k, t) is (t.strip().lower() in e[5]), "%s: %s %r" % (tag, k, t), case)
    text = "A $$=a=$$ and $$=n.b=$$$$=nothing=$$\n$$x=1$$ $$=a b=$$ $$=m.p2=$$."
    want = text
    for k in ("a", "n.b", "nothing", "m.p2"):
        want = want.replace("$$=%s=$$" % k, "$$\n%s\n$$" % sympy.latex(d[k][0]) if k in d else "$$!=ERROR[%s]=$$" % k)
    true("text filter", f(text) == want and f.filter(text) == want, "%s: %r, expected %r" % (tag, f(text), want), case)


def tags(Tags):
    words = ("a", "B", " c ", "d e", "A")
    for n in range(1, 5):
        for c in itertools.product(words, repeat=n):
            t = Tags.fromstr(",".join(c))
            w = {x.strip().lower() for x in c}
            true("tags", all(t.has(x) is (x.strip().lower() in w) for x in words + ("z", "D E", "")), "%r" % (c,), list(c))
            true("tags as text", set(t.str.split(",")) == w and str(t) == t.str, "%r: %r" % (c, t.str), list(c))
            t2 = Tags.fromstr(t.str)
            true("round trip", all(t2.has(x) is t.has(x) for x in words), "%r" % (c,), list(c))
            for o in (None, "z", "a,Z"):
                u, v = Tags.fromstr(",".join(c)), Tags.fromstr(o)
                r = u.add(v)
                wo = set() if o is None else set(o.lower().split(","))
                true("added tags", r is u and all(u.has(x) is (x.strip().lower() in w | wo) for x in words + ("z",)) and all(v.has(x) is (x.strip().lower() in wo) for x in words + ("z",)), "%r %r" % (c, o), list(c))
                if n < 3:
                    u.addstr("late")
                    true("tags of others", u.has("late") and not v.has("late"), "%r %r" % (c, o), list(c))
                    u, v = Tags(), Tags.fromstr(o)
                    u.add(v).addstr(",".join(c))
                    true("tags of others", all(v.has(x) is (x.strip().lower() in wo) for x in words + ("z",)) and all(u.has(x) is (x.strip().lower() in w | wo) for x in words), "%r %r" % (c, o), list(c))
                if o:
                    u = Tags.fromstr(",".join(c))
                    true("added text", u.addstr(o) is u and all(u.has(x) is (x.strip().lower() in w | wo) for x in words + ("z",)), "%r %r" % (c, o), list(c))
    a, b = Tags(), Tags()
    a.add(Tags.fromstr("q"))
    true("no tags", Tags.fromstr(None).has("a") is False and not b.has("q") and Tags().str == "", "", [])


def algebra(sympy):
    import operator
    import sympyx
    x, y, z = sympy.symbols("x y z", positive=True)
    E = sympyx.Eq
    eqs = [(x, y + 1), (2 * x, sympy.Integer(3)), (x * y, z), (x - 1, y ** 2), (1 / x, y - z), (sympy.sqrt(y), x / z)]
    scal = [2, -1, sympy.Rational(1, 3), z, x + y]
    bin_ = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow}
    same = lambda a, b: sympy.simplify(a - b) == 0

    def expect(key, f, l, r, case):
        if sympy.simplify(l - r) == 0 or same(l, r):
            return
        try:
            g = f()
            true(key, isinstance(g, sympyx.XEq) and same(g.lhs, l) and same(g.rhs, r), "%s gives %s, expected %s = %s" % (case, g, l, r), case)
        except Exception as e:
            true(key, False, "%s: %r" % (case, e), case)
    p, q = sympy.symbols("p q")
    more = [(p, q ** 2 - 1), (p ** 2 + 2 * p, q), (p ** 3 - p, 0 * q), (p * q, q + 1)]
    for l, r in more[K::N]:
        e = E(l, r)
        for v in sorted(e.free_symbols, key=str):
            for ix, sol in enumerate(sympy.solve(sympy.Eq(l, r), v)):
                expect("isolated", lambda: e.isolate(v, ix), v, sol, [str(e), str(v), ix])
                if ix == 0:
                    expect("isolated", lambda: e.isolate(v), v, sol, [str(e), str(v)])
    todo = list(enumerate(itertools.product(range(len(eqs)), bin_)))[K::N]
    for _, (i, o) in todo:
        l, r = eqs[i]
        e, op = E(l, r), bin_[o]
        for s in scal:
            if o == "**" and s in (z, x + y):
                continue
            expect("equation and scalar", lambda: op(e, s), op(l, s), op(r, s), [i, o, str(s)])
            if o == "**" and i in (2, 4, 5):
                continue
            expect("scalar and equation", lambda: op(s, e), op(sympy.sympify(s), l), op(sympy.sympify(s), r), [str(s), o, i])
        for k, (l2, r2) in enumerate(eqs):
            if o == "**" and (k not in (1,) or i == 4):
                continue
            e2 = E(l2, r2)
            expect("two equations", lambda: op(e, e2), op(l, l2), op(r, r2), [i, o, k])
            true("operands unchanged", (e.lhs, e.rhs, e2.lhs, e2.rhs) == (l, r, l2, r2), "%s %s %s" % (i, o, k), [i, o, k])
    for i, (l, r) in list(enumerate(eqs))[K::N]:
        e = E(l, r)
        expect("negative", lambda: -e, -l, -r, [i]); expect("neg", lambda: e.neg(), -l, -r, [i])
        expect("inverse", lambda: e.invert(), 1 / l, 1 / r, [i])
        expect("swapped", lambda: e.swap(), r, l, [i])
        for v in sorted(e.free_symbols, key=str):
            for ix, sol in enumerate(sympy.solve(sympy.Eq(l, r), v)):
                expect("isolated", lambda: e.isolate(v, ix), v, sol, [i, str(v), ix])
                if ix == 0:
                    expect("isolated", lambda: e.isolate(v), v, sol, [i, str(v)])
                for f in ("simplify0", "simplify1", "sy"):
                    try:
                        g = getattr(e, f)()
                        true("simplified", g == True or same(g.lhs.subs(v, sol), g.rhs.subs(v, sol)), "%s.%s() = %s" % (e, f, g), [i, f])
                        true("simplified equation", g not in (sympy.true, sympy.false) and e.free_symbols == g.free_symbols, "%s.%s() = %s" % (e, f, g), [i, f])
                    except Exception as ex:
                        true("simplified", False, "%s.%s(): %r" % (e, f, ex), [i, f])
        for k, (l2, r2) in enumerate(eqs):
            if k in (0, 3) or l2 == x:
                e2 = E(l2, r2)
                for f in ("subs_eq", "s"):
                    expect("substituted", lambda: getattr(e, f)(e2), l.subs(l2, r2), r.subs(l2, r2), [i, f, k])
                for sm in (True, False):
                    expect("subs of equation", lambda: sympyx.subs(e, e2, sm), l.subs(l2, r2), r.subs(l2, r2), [i, "subs", k, sm]) if not sm else None
                    for ex in (l, r):
                        try:
                            g = sympyx.subs(ex, e2, sm)
                            true("subs", same(g, ex.subs(l2, r2)), "subs(%s, %s) = %s" % (ex, e2, g), [i, k, sm])
                        except Exception as err:
                            true("subs", False, "subs(%s, %s, %s): %r" % (ex, e2, sm, err), [i, k, sm])


try:
    {"W01": w01, "W02": w02}[PID]()
except Exception:
    OUT["errors"].append(traceback.format_exc())
print(json.dumps(OUT))
