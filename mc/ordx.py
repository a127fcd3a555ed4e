"""Order objects (S19): one order described in every supported way is the same curve, in memory, from files and in every router."""
import itertools
import json
import logging
import os
import shutil
import tempfile
from decimal import Decimal as D
from fractions import Fraction as F
from math import isqrt, sqrt

from mc import core, ref
from mc.core import call
from mc.oui import J

from carbon.order import Order
from carbon.routers import AlphaRouter, ExactRouterX0Y0N, FastRouter

ROUTERS = (ExactRouterX0Y0N, FastRouter, AlphaRouter)
SQRTS = ((30, 35), (1, 2), (D("0.01"), D("0.011")), (D("0.5"), 40), (1000, D("1000.5")), (D("1E-6"), D("1.5E-6")), (7, 7), (D("0.25"), D("0.25")))
YS = ((100, 100), (50, 200), (0, 3), (D("0.001"), D("0.001")), (D("1E-9"), 5), (D("7E8"), D("7.5E8")), (3, D("3.0001")))
BIG = ((10 ** 18, 10 ** 18), (5 * 10 ** 17, 10 ** 18), (123456789012345678901, 10 ** 21), (10 ** 9, 10 ** 12))


def near(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def descriptions(lo, hi, y, z):
    """(name, arguments of Order) for every description of the curve with square root prices lo, hi"""
    lo, hi, y, z = D(lo), D(hi), D(y), D(z)
    pl, ph = lo * lo, hi * hi
    out = [("prices", dict(p_low=pl, p_high=ph, _y=y, y_int=z)),
           ("prices swapped", dict(p_low=ph, p_high=pl, _y=y, y_int=z)),
           ("prices text", dict(p_low=str(pl), p_high=str(ph), _y=str(y), y_int=str(z))),
           ("prices float", dict(p_low=float(pl), p_high=float(ph), _y=float(y), y_int=float(z))),
           ("prices, D", dict(p_low=pl, p_high=ph, _y=y, D=z)),
           ("B, S", dict(B=lo, S=hi - lo, _y=y, y_int=z)),
           ("B, S text", dict(B=str(lo), S=str(hi - lo), _y=str(y), y_int=str(z))),
           ("B, S, D", dict(B=lo, S=hi - lo, _y=y, D=z)),
           ("B, S, other prices", dict(B=lo, S=hi - lo, p_low=1, p_high=2, _y=y, y_int=z))]
    if y == z:
        out += [("full", dict(p_low=pl, p_high=ph, _y=y)), ("full B, S", dict(B=lo, S=hi - lo, _y=y))]
    if y > 0 and hi > lo:
        m = (lo + (hi - lo) * y / z) ** 2
        out += [("marginal price", dict(p_low=pl, p_high=ph, _y=y, p_marginal=m)),
                ("marginal price swapped", dict(p_low=ph, p_high=pl, _y=y, p_marginal=m)),
                ("marginal price text", dict(p_low=str(pl), p_high=str(ph), _y=str(y), p_marginal=str(m))),
                ("B, S, marginal price", dict(B=lo, S=hi - lo, _y=y, p_marginal=m))]
    return out


def judge(j, tag, o, lo, hi, y, z):
    lo, hi, y, z = D(lo), D(hi), D(y), D(z)
    rel = 1e-9 if "marginal" not in tag else max(1e-8, 1e-26 * float(z / y if y else 1))
    for f, w in (("p_low", lo * lo), ("p_high", hi * hi), ("y", y), ("y_int", z), ("D", z), ("B", lo)):
        g = getattr(o, f)
        j.true("order " + f, g is not None and near(g, w, rel), "%s: %s=%r, expected %s" % (tag, f, g, w))
    j.true("order S", near(o.S, hi - lo, 1e-9, 1e-12 * float(hi)), "%s: S=%r, expected %s" % (tag, o.S, hi - lo))
    j.true("order types", all(isinstance(getattr(o, f), D) for f in ("p_low", "p_high", "_y")), "%s: not decimal" % tag)
    j.true("order mid price", near(o.p, lo * hi), "%s: p=%s" % (tag, o.p))
    j.true("order flat", bool(o.adj_n_mode) == (lo == hi), "%s: %r" % (tag, o.adj_n_mode))
    # the curve: x(y) is what has been paid into the order since it was full, on the curve's own invariant
    c = ref.Curve(z, z, hi * hi, lo * lo)
    want = c.dx_for_dy(float(z - y))
    j.true("order x", near(o.x, want, 1e-7, 1e-9 * c.max_dx()), "%s: x=%s, expected %s" % (tag, o.x, want))
    j.true("order k", near(o.k, o.x0 * o.y0) and near(o.y0 / o.x0, o.p, 1e-9), "%s: k=%s" % (tag, o.k))
    if not lo == hi:
        j.true("order n", near(o.n, 1 - sqrt(lo / hi), 1e-7, 1e-12), "%s: n=%s" % (tag, o.n))


def trades(j, tag, o, lo, hi, y, z):
    """the routers' own trade functions on this order alone"""
    c = ref.Curve(y, z, D(hi) ** 2, D(lo) ** 2)
    if y <= 0:
        return
    mx = c.max_dx()
    for R in ROUTERS:
        for f in (0.1, 0.5, 0.9):
            for target in (True, False):
                r = R()
                r.orders = [o]
                amt = float(y) * f if target else mx * f
                want = (amt, c.dx_for_dy(amt)) if target else (c.dy_for_dx(amt), amt)
                if min(want) < 1e-5:        # the routers report amounts with twelve decimals
                    continue
                v, e = call(r.match_by_target if target else r.match_by_src, D(-amt) if target else D(amt), threshold_orders=10)
                if not j.true("trade", e is None and len(v) == 1, "%s %s: %r %r" % (tag, R.__name__, v, e)):
                    continue
                got = (abs(v[-1].total_output), abs(v[-1].total_input))
                if R is FastRouter and target:
                    got = got[::-1]
                j.true("trade", near(got[0], want[0], 1e-6) and near(got[1], want[1], 1e-6) and v[0].index == 0,
                       "%s %s by %s: output, input = %s, expected %s" % (tag, R.__name__, "target" if target else "source", got, want))


def bad(j):
    P = dict(p_low=1, p_high=2)
    for k in (dict(P), dict(P, y_int=3), dict(_y=1), dict(_y=1, y_int=2), dict(p_low=1, _y=1), dict(p_high=1, _y=1, y_int=1), dict(B=1, _y=1), dict(S=1, _y=1, y_int=1), dict()):
        o, e = call(Order, **{a: D(b) for a, b in k.items()})
        j.true("incomplete order", e is not None, "%s accepted: %r" % (k, o))


def setters(j):
    o = Order(p_low=D(1), p_high=D(4), _y=D(5), y_int=D(10))
    for v in (D(0), D(3), D(10)):
        o.y = v
        j.true("balance", o.y == v and o._y == v and o.y_int == 10 and o.p_low == 1 and o.p_high == 4, "%r" % o)
    for q in (True, False):
        for lo, hi in ((1, 2), (3, 3), (D("0.1"), 7)):
            lo, hi = D(lo), D(hi)
            o = Order(B=lo, S=hi - lo, _y=5, _reverseq=q)
            w = sorted((1 / hi ** 2, 1 / lo ** 2)) if q else sorted((hi ** 2, lo ** 2))
            j.true("reversed price convention", o.reverseq is q and near(o.p_low, w[0]) and near(o.p_high, w[1]) and near(o.pa_raw, hi ** 2) and near(o.pb_raw, lo ** 2), "%r" % o)


def files(item, j, t):
    _, router, floor, shape, n, style = item
    R = ROUTERS[router]
    lo, hi = SQRTS[shape]
    recs = list(itertools.islice(itertools.cycle(BIG if floor else YS), n))
    path = tempfile.mkdtemp(prefix="verif-ord-")
    try:
        r = R(parameters=dict(use_floor_division=True) if floor else None)
        for num in (None, 1, 2, 5, 20):
            fn = os.path.join(path, "o.json")
            conv = {"text": str, "number": lambda v: float(v) if not isinstance(v, int) else v}[style[0]]
            data = [dict(B=conv(D(lo)), S=conv(D(hi) - D(lo)), _y=conv(y), y_int=conv(z), name="x%d" % i, extra=None) for i, (y, z) in enumerate(recs)]
            with open(fn, "w") as f:
                json.dump(data if style[1] == "list" else {"k%d" % i: d for i, d in enumerate(data)}, f)
            for fmt in ("nix", "orders"):
                v, e = call(r.make_orders_from_file, fn, format_type=fmt, num_curves=num, file_type="json")
                if not j.true("json orders", e is None, "raised %r" % (e,)):
                    return
                os_, nix = v if fmt == "nix" else (v, None)
                m = min(n, num or 10)
                if not j.true("json number of orders", len(os_) == m, "%d of %d (asked for %s)" % (len(os_), n, num)):
                    return
                for i, ((y, z), o) in enumerate(zip(recs, os_)):
                    if floor:
                        j.true("json integers", o.y == y and o.y_int == z and abs(int(o.B) - int(D(lo) * 2 ** 32)) <= 1
                               and abs(int(o.S) + int(o.B) - int(D(hi) * 2 ** 32)) <= 1 and o.B == int(o.B) and o.S == int(o.S)
                               and near(o.p_low, D(lo) ** 2) and near(o.p_high, D(hi) ** 2), "%r, expected B=%s, S=%s" % (o, int(D(lo) * 2 ** 32), int((D(hi) - D(lo)) * 2 ** 32)))
                    else:
                        judge(j, "json", o, lo, hi, y, z)
                    if nix is not None:
                        w = dict(token_1="usdc", token_2="eth", token_1_p_a=o.p_high, token_1_p_b=o.p_low, token_1_y_int=o.y_int,
                                 token_2_p_a=o.p_high, token_2_p_b=o.p_low, token_2_y_int=o.y_int)
                        j.true("json table", nix.get(i) == w and len(nix) == m, "%r" % nix.get(i))
                if floor and R is FastRouter and num is None:
                    integers(j, r, os_, lo, hi, recs)
        if not floor:
            fn = os.path.join(path, "o.csv")
            with open(fn, "w") as f:
                f.write("id,p_low,p_high,y_int\n" + "".join("%d,%r,%r,%r\n" % (i, float(D(lo) ** 2), float(D(hi) ** 2), float(z)) for i, (y, z) in enumerate(recs)))
            for fmt in ("nix", "orders"):
                v, e = call(r.make_orders_from_file, fn, format_type=fmt, file_type="csv")
                if not j.true("csv orders", e is None, "raised %r" % (e,)):
                    return
                os_, nix = v if fmt == "nix" else (v, {})
                if j.true("csv number of orders", len(os_) == n and nix == {}, "%d of %d" % (len(os_), n)):
                    for (y, z), o in zip(recs, os_):
                        judge(j, "csv", o, lo, hi, z, z)
                        if n == 1:
                            trades(j, "csv", o, lo, hi, z, z)
    finally:
        shutil.rmtree(path, ignore_errors=True)


def integers(j, r, os_, lo, hi, recs):
    """integer arithmetic never favours the trader, and is off by rounding only"""
    r.orders = os_
    for i, o in enumerate(os_):
        y, z, A, B = int(o.y), int(o.y_int), F(int(o.S), 2 ** 32), F(int(o.B), 2 ** 32)
        sq = B + A * y / z
        for dy in (1, 2, 1000, y // 3, y // 2, y - 1, y):
            if sq == 0 or sq - A * dy / z == 0:
                continue
            exact = F(dy) / (sq * (sq - A * dy / z))
            v, e = call(r.amt_by_src, i, D(dy), None)
            j.true("integer input", e is None and v == int(v) and exact <= F(int(v)) <= exact * (1 + F(1, 10 ** 12)) + 1,
                   "dy=%d of %s: %r %r, exact %s" % (dy, (y, z, int(o.S), int(o.B)), v, e, float(exact)))
            dx = int(exact)
            out = F(dx) * sq * sq / (1 + F(dx) * sq * A / z)
            v, e = call(r.amt_by_target, i, D(dx), None)
            j.true("integer output", e is None and v == int(v) and out * (1 - F(1, 10 ** 6)) - 1 <= F(int(v)) <= out,
                   "dx=%d of %s: %r %r, exact %s" % (dx, (y, z, int(o.S), int(o.B)), v, e, float(out)))


def items(th):
    for s in range(len(SQRTS)):
        for y in range(len(YS)):
            yield ("desc", s, y)
    yield ("bad",)
    yield ("setters",)
    for router in range(3):
        for floor in (False, True):
            for s in range(len(SQRTS)):
                for n in ((1, 3, 12) if th or s < 3 else (3,)):
                    for style in itertools.product(("text", "number"), ("list", "dict")):
                        yield ("file", router, floor, s, n, style)


def s19(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "desc":
        (lo, hi), (y, z) = SQRTS[item[1]], YS[item[2]]
        for tag, kw in descriptions(lo, hi, y, z):
            o, e = call(Order, **kw)
            t.add("orders")
            if j.true("order", e is None, "%s %s: raised %r" % (tag, kw, e)):
                judge(j, tag, o, lo, hi, y, z)
                trades(j, tag, o, lo, hi, y, z)
    elif item[0] == "bad":
        bad(j)
    elif item[0] == "setters":
        setters(j)
    else:
        files(item, j, t)


def _s19(its, t):
    for i in its:
        core.arm()
        s19(i, t)


def check(pid, tier):
    its = list(items(tier == "thorough"))
    tally = core.run_tasks(_s19, core.stripes(its, 32))
    return tally, dict(states=len(its), transitions=tally.n.get("comparisons", 0), exhaustive=True,
                       bounds="8 ranges x 7 balances x all descriptions (9 to 15) x 3 routers; files in 2 formats x 4 styles x 1 to 12 orders x 3 routers, with decimal and integer arithmetic")


def replay(pid, case, t):
    s19(tuple(tuple(x) if isinstance(x, list) else x for x in case["case"]), t)
