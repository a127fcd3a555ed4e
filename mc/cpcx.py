"""Constant product curves and their containers (carbon/tools/cpc.py): curve functions (C01), trades (C02),
carbon orders as curves (C03), serialization (C04), containers and queries (C05), primary pairs and filters
(C06), price estimates (C07), inverted curves (C08), pair analysis tables (C09)."""
import copy
import io
import itertools
from math import inf, sqrt, isclose

from mc import core
from mc.core import call, num
from mc.oui import J
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer, CPCInverter
from carbon.tools.cpc import Pair as CPair
from carbon.tools.tokenscale import TokenScale

PR = (1e-6, 0.0005, 1.0, 2000.0, 1e8)
KS = (1e-4, 100.0, 4e10)
# price range relative to the current price; None = unlimited
RG = {"full": (None, None), "in": (1 / 1.1, 1.2), "wide": (0.01, 50.0), "tight": (0.9999, 1.00005),
      "atmax": (0.5, 1.0), "atmin": (1.0, 2.0), "low": (0.8, None), "high": (None, 1.5), "empty": (1.0, 1.0)}
PAIRS = ("ETH/USDC", "USDC/ETH", "WETH-6Cc2/USDC-eB48", "BNT-FF1C/LINK-86CA")


class Ref:
    """a constant product curve from first principles"""

    def __init__(self, p, k, rg):
        self.p, self.k = p, k
        self.x, self.y = sqrt(k / p), sqrt(k * p)
        a, b = RG[rg] if isinstance(rg, str) else rg
        self.pmin = None if a is None else p * a
        self.pmax = None if b is None else p * b
        self.xmin = 0.0 if b is None else sqrt(k / self.pmax)
        self.ymin = 0.0 if a is None else sqrt(k * self.pmin)
        self.xmax = None if a is None else sqrt(k / self.pmin)
        self.ymax = None if b is None else sqrt(k * self.pmax)
        self.xa, self.ya = self.x - self.xmin, self.y - self.ymin


def shapes():
    return [(p, k, rg, pair) for p in PR for k in KS for rg in RG for pair in PAIRS]


def build(shape):
    p, k, rg, pair = shape
    r = Ref(p, k, rg)
    return r, CPC.from_pk(p=p, k=k, x_act=r.xa if r.pmax else None, y_act=r.ya if r.pmin else None, pair=pair, cid="c1", fee=0.01, descr="d")


def near(a, b, rel=1e-9, abs_=0.0):
    a = num(a)
    return a is not None and abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def c01(shape, t):
    p, k, rg, pair = shape
    j = J(t, list(shape))
    r, c = build(shape)
    ex, ey = 1e-9 * r.x, 1e-9 * r.y
    tb, tq = pair.split("/")
    short = lambda s: s.split("-")[0]

    def state(key, c, xa=r.xa, ya=r.ya):
        t.add("constructions")
        j.eq(key + " k", c.k, k); j.eq(key + " x", c.x, r.x); j.eq(key + " y", c.y, r.y); j.eq(key + " p", c.p, p)
        j.eq(key + " x_act", c.x_act, xa, 1e-7, ex); j.eq(key + " y_act", c.y_act, ya, 1e-7, ey)
        j.true(key + " pair", c.pair == pair, c.pair)

    kw = dict(x_act=r.xa if r.pmax else None, y_act=r.ya if r.pmin else None, pair=pair)
    state("from_pk", c)
    state("from_kx", CPC.from_kx(k=k, x=r.x, **kw))
    state("from_ky", CPC.from_ky(k=k, y=r.y, **kw))
    state("from_xy", CPC.from_xy(x=r.x, y=r.y, **kw))
    state("from_px", CPC.from_px(p=p, x=r.x, **kw))
    state("from_py", CPC.from_py(p=p, y=r.y, **kw))
    state("canonical", CPC(k=k, x=r.x, **kw))
    for f, a in ((CPC.from_kx, dict(k=k, x=r.x)), (CPC.from_ky, dict(k=k, y=r.y)), (CPC.from_xy, dict(x=r.x, y=r.y)),
                 (CPC.from_pk, dict(p=p, k=k)), (CPC.from_px, dict(p=p, x=r.x)), (CPC.from_py, dict(p=p, y=r.y))):
        state(f.__name__ + " unlevered", f(pair=pair, **a), r.x, r.y)
        q = f(pair=pair, cid="i", fee=0.3, descr="hello", params=dict(exchange="xx", a=dict(b=3)), **a)
        j.true("provenance", q.constr == f.__name__[5:], "%r" % q.constr)
        j.true("metadata", (q.cid, q.fee, q.descr, q.P("exchange"), q.P("a:b"), q.P("a:c", 7), q.P("zz", 8)) == ("i", 0.3, "hello", "xx", 3, 7, 8),
               repr(q))
    if r.pmin is not None and r.pmax is not None:
        state("from_pkpp", CPC.from_pkpp(p=p, k=k, p_min=r.pmin, p_max=r.pmax, pair=pair))
        u = dict(uniL=sqrt(k), uniPa=r.pmin, uniPb=r.pmax, pair=pair, cid="c", fee=0, descr="")
        q, e = call(CPC.from_univ3, Pmarg=p, **u)
        if r.pmin < p < r.pmax:
            if j.true("from_univ3", e is None, "raised %r" % (e,)):
                state("from_univ3", q)
                j.true("from_univ3 provenance", q.constr == "uv3" and q.P("L") == sqrt(k), "%r %r" % (q.constr, q.params))
        else:
            j.true("from_univ3 outside", isinstance(e, AssertionError), "price at the range end accepted: %r" % (q,))
        u.update(uniPa=r.pmax, uniPb=r.pmin)
        q, e = call(CPC.from_univ3, Pmarg=p, **u)
        j.true("from_univ3 reversed", isinstance(e, AssertionError), "reversed range accepted: %r" % (q,))
    if rg == "full":
        m = dict(pair=pair, cid="c", fee=0, descr="")
        state("from_univ2", CPC.from_univ2(x_tknb=r.x, y_tknq=r.y, **m))
        state("from_univ2 kx", CPC.from_univ2(x_tknb=r.x, k=k, **m))
        state("from_univ2 ky", CPC.from_univ2(y_tknq=r.y, k=k, **m))
        for bad in (dict(x_tknb=1, y_tknq=1, k=1), dict(x_tknb=1), dict()):
            q, e = call(CPC.from_univ2, **bad, **m)
            j.true("from_univ2 rejects", e is not None, "%s accepted: %r" % (bad, q))
    # tokens
    for a, w in (("tknb", tb), ("tknq", tq), ("tknx", tb), ("tkny", tq), ("tknbp", short(tb)), ("tknqp", short(tq)),
                 ("tknxp", short(tb)), ("tknyp", short(tq)), ("pairp", short(tb) + "/" + short(tq))):
        j.true(a, getattr(c, a) == w, "%s=%r, expected %r" % (a, getattr(c, a), w))
    # bounds
    j.eq("kbar", c.kbar, sqrt(k))
    for a, w, ab in (("x_min", r.xmin, ex), ("y_min", r.ymin, ey), ("x_max", r.xmax, ex), ("y_max", r.ymax, ey)):
        if w is None:
            j.true(a, getattr(c, a) is None, "%s=%r, expected None" % (a, getattr(c, a)))
        else:
            j.eq(a, getattr(c, a), w, 1e-7, ab)
    for a, w in (("p_min", r.pmin), ("p_max", r.pmax)):
        if w is None:
            j.true(a, getattr(c, a) is None, "%s=%r, expected None" % (a, getattr(c, a)))
        else:
            j.eq(a, getattr(c, a), w, 1e-6)
    j.eq("dx_min", c.dx_min, -r.xa, 1e-7, ex); j.eq("dy_min", c.dy_min, -r.ya, 1e-7, ey)
    for a, w, cur, ab in (("dx_max", r.xmax, r.x, ex), ("dy_max", r.ymax, r.y, ey)):
        v = getattr(c, a)
        if w is None:
            j.true(a, v is None, "%s=%r, expected None" % (a, v))
        else:
            j.eq(a, v, w - cur, 1e-6, ab)
    fl = dict(at_xmin=rg in ("atmax", "empty"), at_ymax=rg in ("atmax", "empty"),
              at_xmax=rg in ("atmin", "empty"), at_ymin=rg in ("atmin", "empty"), at_boundary=rg in ("atmax", "atmin", "empty"))
    for a, w in fl.items():
        j.true(a, bool(getattr(c, a)) == w, "%s=%r, expected %r" % (a, getattr(c, a), w))
    # position at a price
    lo = r.pmin or 0.0
    hi = r.pmax or float("inf")
    for f in (1e-3, 0.5, 0.95, 0.99995, 1.0, 1.00002, 1.05, 1.3, 10.0, 1e3, None):
        q = p * (f or 1.0)
        t.add("points")
        for ign in (False, True):
            pe = q if ign else min(max(q, lo), hi)
            x, y = sqrt(k / pe), sqrt(k * pe)
            a = (None if f is None else q,)
            v = c.xyfromp_f(*a, ignorebounds=ign)
            j.eq("xyfromp_f x", v[0], x, 1e-7, 0, "p=%g ign=%s" % (q, ign)); j.eq("xyfromp_f y", v[1], y, 1e-7, 0, "p=%g ign=%s" % (q, ign))
            j.eq("xyfromp_f p", v[2], q)
            d = c.dxdyfromp_f(*a, ignorebounds=ign)
            j.eq("dxdyfromp_f dx", d[0], x - r.x, 1e-6, ex * 10); j.eq("dxdyfromp_f dy", d[1], y - r.y, 1e-6, ey * 10)
            j.eq("dxdyfromp_f p", d[2], q)
            for nm, g in (("xyfromp_f", v), ("dxdyfromp_f", d)):
                w = getattr(c, nm)(*a, ignorebounds=ign, withunits=True)
                j.true(nm + " units", tuple(w) == tuple(g) + (c.tknxp, c.tknyp, c.pairp), repr(w))
        # one coordinate from the other
        x, y = sqrt(k / q), sqrt(k * q)
        inside, edge = lo < q < hi, any(b and isclose(q, b, rel_tol=1e-5) for b in (lo, hi))
        for nm, arg, want, ab in (("yfromx_f", x, y, 0), ("xfromy_f", y, x, 0), ("dyfromdx_f", x - r.x, y - r.y, 10 * ey), ("dxfromdy_f", y - r.y, x - r.x, 10 * ex)):
            g = getattr(c, nm)
            j.eq(nm + " unbounded", g(arg, ignorebounds=True), want, 1e-6, ab, "%g" % arg)
            if edge:
                continue
            v = g(arg)
            if inside:
                j.eq(nm, v, want, 1e-6, ab, "%g" % arg)
            else:
                j.true(nm + " outside", v is None, "%s(%g)=%r, expected None" % (nm, arg, v))
    # value
    for m in (1.0, 1800.0):
        w = (p * r.xa + r.ya) * m
        ab = 1e-8 * r.y * m
        j.eq("tvl", c.tvl(mult=m), w, 1e-7, ab); j.eq("tvl quote", c.tvl(tq, mult=m), w, 1e-7, ab); j.eq("tvl base", c.tvl(tb, mult=m), w / p, 1e-7, ab / p)
        v = c.tvl(tb, mult=m, incltkn=True)
        j.true("tvl units", near(v[0], w / p, 1e-7, ab / p) and tuple(v[1:]) == (tb, m), repr(v))
        v = c.tvl(incltkn=True, mult=m)
        j.true("tvl units", near(v[0], w, 1e-7, ab) and tuple(v[1:]) == (tq, m), repr(v))
    v, e = call(c.tvl, "FOO")
    j.true("tvl foreign", isinstance(e, ValueError), "%r" % (v,))
    j.true("tvl foreign", c.tvl("FOO", raiseonerror=False) is None, "")
    j.eq("pp", c.pp, p if CPair(pair).isprimary else 1 / p)


# ---------------------------------------------------------------- C02 trades

def curve_key(c):
    return tuple(float("%.9g" % v) for v in (c.k, c.x, c.x_act, c.y_act))


def c02_alphabet(c):
    ops = []
    for f in (-1.1, -1.0, -0.5, -1e-3):
        ops += [("dx", c.x_act * f), ("dy", c.y_act * f)]
    ox = c.k / (c.y - c.y_act) - c.x if c.y_act < c.y * (1 - 1e-12) else None
    oy = c.k / (c.x - c.x_act) - c.y if c.x_act < c.x * (1 - 1e-12) else None
    for f in (1e-3, 0.5, 1.0, 1.1):
        ops += [("dx", (ox if ox is not None else 10 * c.x) * f), ("dy", (oy if oy is not None else 10 * c.y) * f)]
    return [o for o in ops if o[1] != 0] + [("dx", 0.0)]


def wout(c, side, a):
    """by how much (relative to the curve) the trade takes more than there is"""
    return (c.x_act + a) / c.x if side == "dx" else (c.y_act + a) / c.y


def c02_step(c, op, ign, t, case):
    """execute op on c; returns the new curve or None if refused; judged against the definition"""
    j = J(t, case)
    side, a = op
    before = (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, dict(c.params))
    n, e = call(c.execute, ignorebounds=ign, **{side: a})
    j.true("original unchanged", before == (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, dict(c.params)), "the traded curve object changed")
    nx = c.x + a if side == "dx" else None
    ny = c.y + a if side == "dy" else None
    if (nx / c.x if nx is not None else ny / c.y) <= 1e-7:
        if not ign and (nx if nx is not None else ny) <= 0 and abs(wout(c, side, a)) > 1e-6:
            j.true("refused", n is None, "a trade beyond the curve was accepted: %r" % (n,))
        return None
    nx = c.k / ny if nx is None else nx
    ny = c.k / nx if ny is None else ny
    wx, wy = c.x_act + nx - c.x, c.y_act + ny - c.y
    tx, ty = 1e-5 * c.x, 1e-5 * c.y         # the code tolerates about 1e-6
    if not ign and (wx < -tx or wy < -ty):
        j.true("refused", n is None and isinstance(e, ValueError), "trade %s beyond the bounds accepted: %r %r" % (op, n, e))
        return None
    edge = abs(wx) < tx or abs(wy) < ty
    if n is None:
        j.true("executed", edge and not ign, "%s refused: %r" % (op, e))
        return None
    j.eq("k", n.k, c.k, 1e-12); j.eq("invariant", n.x * n.y, c.k, 1e-9)
    j.eq("x", n.x, nx, 1e-9); j.eq("y", n.y, ny, 1e-9)
    # what the trader gives and gets is what the pool gains and loses
    j.eq("x_act", n.x_act, wx, 1e-9, 1e-9 * max(c.x, nx)); j.eq("y_act", n.y_act, wy, 1e-9, 1e-9 * max(c.y, ny))
    # the range does not move
    j.eq("x_min", n.x_min, c.x_min, 1e-7, 1e-8 * max(c.x, nx)); j.eq("y_min", n.y_min, c.y_min, 1e-7, 1e-8 * max(c.y, ny))
    j.true("pair", n.pair == c.pair and n.fee == c.fee, "pair/fee changed")
    return n


def c02(item, t):
    shape, ign, depth = item
    r, c0 = build(shape)
    level, seen = [(c0, [])], {curve_key(c0)}
    for d in range(depth):
        nxt = []
        for c, hist in level:
            for op in c02_alphabet(c):
                core.arm()
                case = dict(shape=list(shape), ign=ign, ops=hist + [list(op)])
                n = c02_step(c, op, ign, t, case)
                t.add("transitions")
                if n is None:
                    continue
                j = J(t, case)
                # splitting the trade, and trading back
                m = c02_step(c, (op[0], op[1] * 0.4), True, t, case)
                m = c02_step(m, (op[0], op[1] * 0.6), True, t, case) if m is not None else None
                b = c02_step(n, (op[0], -op[1]), True, t, case)
                if m is not None:
                    j.eq("path independence", m.x, n.x, 1e-8); j.eq("path independence", m.y_act, n.y_act, 1e-7, 1e-8 * max(n.y, c.y))
                if b is not None:
                    j.eq("round trip", b.x, c.x, 1e-8, 1e-8 * n.x); j.eq("round trip", b.y_act, c.y_act, 1e-7, 1e-8 * max(n.y, c.y))
                    j.eq("round trip", b.x_act, c.x_act, 1e-7, 1e-8 * max(n.x, c.x))
                # the same trade given by the other token
                o = c02_step(c, ("dy" if op[0] == "dx" else "dx", n.y - c.y if op[0] == "dx" else n.x - c.x), True, t, case)
                if o is not None and abs(n.x / c.x - 1) > 1e-6:
                    j.eq("other token", o.x, n.x, 1e-5)
                key = curve_key(n)
                t.seen("states", (shape, ign, key))
                if key not in seen and 0 < n.x < 1e30 and n.x_act > -1e30:
                    seen.add(key)
                    nxt.append((n, hist + [list(op)]))
        level = nxt
    v, e = call(c0.execute, dx=1.0, dy=-1.0)
    J(t, dict(shape=list(shape), ign=ign, ops=[])).true("both sides given", isinstance(e, ValueError), "accepted")
    t.sample(dict(curve=list(shape), ignorebounds=ign, history=level[-1][1] if level else []))


# ---------------------------------------------------------------- C03 carbon orders

def c03_items():
    for rng, lvl, cap, fill, tkn in itertools.product(((1.5, 1.0), (1.001, 1.0), (100.0, 1.0)), (1.0, 1500.0, 1e-4), (1.0, 3000.0, 1e-3),
                                                      (0.0, 0.1, 0.5, 1.0), ("ETH", "USDC")):
        yield (rng[0] * lvl, rng[1] * lvl, cap, cap * fill, tkn)


def c03(item, t):
    from carbon import CarbonOrderUI
    pa, pb, z, y, tkn = item
    j = J(t, list(item))
    inv = tkn == "ETH"
    cv = (lambda p: 1 / p) if inv else (lambda p: p)
    for pair in ("ETH/USDC", "USDC/ETH"):
        q = pair.split("/")[1]
        cq = (lambda p: p) if q == tkn else (lambda p: 1 / p)       # dy/dx into the pair's own convention
        mk = [CPC.from_carbon(yint=z, y=y, pa=pa, pb=pb, pair=pair, tkny=tkn, isdydx=True, cid="i"),
              CPC.from_carbon(yint=z, y=y, pa=cq(pa), pb=cq(pb), pair=pair, tkny=tkn, isdydx=False),
              CPC.from_carbon(yint=z, y=y, A=sqrt(pa) - sqrt(pb), B=sqrt(pb), pair=pair, tkny=tkn)]
        sm = (sqrt(pa) - sqrt(pb)) * y / z + sqrt(pb)
        for c in mk:
            t.add("curves")
            j.true("carbon tokens", (c.tkny, c.tknx) == (tkn, "USDC" if inv else "ETH"), c.pair)
            j.eq("carbon p", c.p, sm * sm, 1e-9); j.eq("carbon y_act", c.y_act, y); j.eq("carbon x_act", c.x_act, 0.0)
            if y > 0.05 * z:
                j.eq("carbon p_min", c.p_min, pb, 1e-6); j.eq("carbon p_max", c.p_max, sm * sm, 1e-6)
            # trading on the curve is trading on the order
            for g in (0.0, 1e-3, 0.3, 0.9, 1.0):
                dy = y * g
                s1 = (sqrt(pa) - sqrt(pb)) * (y - dy) / z + sqrt(pb)
                dx = dy / (sm * s1)
                t.add("points")
                j.eq("carbon trade dx", c.dxfromdy_f(-dy, ignorebounds=True), dx, 1e-5, 1e-9 * c.x, "dy=%g" % dy)
                n = c.execute(dy=-dy)
                j.eq("carbon trade p", n.p, s1 * s1, 1e-6); j.eq("carbon trade y_act", n.y_act, y - dy, 1e-6, 1e-8 * c.y)
    # bad arguments
    ok = dict(yint=z, y=y, pa=pa, pb=pb, pair="ETH/USDC", tkny=tkn)
    for bad in (dict(pa=pb, pb=pa), dict(y=z * 1.1), dict(y=-1.0), dict(tkny="FOO"), dict(A=1.0, B=1.0), dict(pa=None), dict(pa=None, pb=None),
                dict(yint=None), dict(y=None), dict(pair=None), dict(tkny=None), dict(pa=None, pb=None, A=1.0), dict(pa=None, pb=None, A=-1.0, B=1.0),
                dict(isdydx=False) if not inv else dict(pa=1 / pa, pb=1 / pb)):
        if bad == dict(isdydx=False):
            continue
        v, e = call(CPC.from_carbon, **{**ok, **bad})
        j.true("from_carbon rejects", e is not None, "%s accepted: %r" % (bad, v))
    # zero width, in every description
    for pair in ("ETH/USDC", "USDC/ETH"):
        pq = pa if pair.split("/")[1] == tkn else 1 / pa
        for kw in (dict(pa=pa, pb=pa), dict(pa=pa, pb=pa, isdydx=True), dict(pa=pq, pb=pq, isdydx=False)):
            c = CPC.from_carbon(yint=z, y=y, pair=pair, tkny=tkn, **kw)
            t.add("curves")
            j.eq("zero width p", c.p, pa, 1e-6, 0, str(kw)); j.eq("zero width y", c.y_act, y)
            if y > 0.05 * z:
                j.eq("zero width p_min", c.p_min, pa, 1e-5); j.eq("zero width p_max", c.p_max, pa, 1e-5)
            if y > 0:
                j.eq("zero width trade", c.execute(dy=-0.5 * y).x - c.x, 0.5 * y / pa, 1e-5)
    # an order UI object as curve
    for pair in ("ETH/USDC", "USDC/ETH"):
        k = (lambda p: p) if pair.split("/")[1] == tkn else (lambda p: 1 / p)
        o = CarbonOrderUI.from_prices(pair, tkn, k(pa), k(pb), z, y)
        c, e = call(getattr, o, 'as_cpc')
        if not j.true("as_cpc", e is None, "raised %r" % (e,)):
            continue
        t.add("curves")
        sm = (sqrt(pa) - sqrt(pb)) * y / z + sqrt(pb)
        isx = c.tknx == tkn
        j.true("as_cpc pair", c.pair == pair, c.pair)
        j.eq("as_cpc p", c.p, 1 / (sm * sm) if isx else sm * sm, 1e-7)
        j.eq("as_cpc amount", c.x_act if isx else c.y_act, y, 1e-5, 1e-8 * (c.x if isx else c.y))
        j.eq("as_cpc other", c.y_act if isx else c.x_act, 0.0, 0, 1e-6 * (c.y if isx else c.x))
        for g in (1e-3, 0.3, 0.9):
            dy = y * g
            if y == 0 or z < 1e-2 * y:
                continue
            s1 = (sqrt(pa) - sqrt(pb)) * (y - dy) / z + sqrt(pb)
            got = (c.dyfromdx_f if isx else c.dxfromdy_f)(-dy, ignorebounds=True)
            j.eq("as_cpc trade", got, dy / (sm * s1), 1e-5, 1e-9 * (c.y if isx else c.x), "dy=%g" % dy)


# ---------------------------------------------------------------- C04 serialization

def pool():
    P = dict(exchange="carbon_v1", n=3)
    return [
        lambda: CPC.from_pk(p=2000.0, k=2e5, pair="WETH-6Cc2/USDC-eB48", cid="a", fee=0.01, descr="uni v2", params=P),
        lambda: CPC.from_pkpp(p=1 / 2000.0, k=100.0, p_min=1 / 2500.0, p_max=1 / 1500.0, pair="USDC/ETH", cid="b"),
        lambda: CPC.from_carbon(yint=10.0, y=5.0, pa=2.0, pb=1.0, pair="ETH/USDC", tkny="ETH", cid="c", fee=0.0),
        lambda: CPC.from_univ3(Pmarg=100.0, uniL=50.0, uniPa=80.0, uniPb=120.0, pair="LINK/ETH", cid="d", fee=0.003, descr="v3"),
        lambda: CPC.from_xy(x=1.0, y=3.0, pair="LINK/USDC"),
        lambda: CPC.from_xy(x=1.0, y=3.0, pair="BNT/USDC", fee=0.0, descr=""),
        lambda: CPC.from_px(p=1e-9, x=1e12, pair="SHIB/ETH", cid=17, params=dict(a=dict(b="c"))).execute(dx=5.0),
    ]


FIELDS = ("k", "x", "x_act", "y_act", "pair", "fee", "descr", "constr")


def same_curve(j, key, a, b, exact=True):
    for f in FIELDS:
        u, v = getattr(a, f), getattr(b, f)
        if isinstance(u, float) and not exact:
            j.true(key + " " + f, near(v, u, 1e-12), "%s: %r became %r" % (f, u, v))
        else:
            j.true(key + " " + f, u == v, "%s: %r became %r" % (f, u, v))
    j.true(key + " cid", a.cid == b.cid or str(a.cid) == str(b.cid), "cid %r became %r" % (a.cid, b.cid))
    j.true(key + " params", dict(a.params) == dict(b.params), "params %r became %r" % (a.params, b.params))
    if exact:
        j.true(key + " equality", a == b, "not equal")


def c04(combo, t):
    import json
    import pandas as pd
    j = J(t, list(combo))
    P = pool()
    curves = [P[i]() for i in combo]
    for c in curves:
        d = c.asdict()
        same_curve(j, "dict", c, CPC.from_dict(d))
        same_curve(j, "json dict", c, CPC.from_dict(json.loads(json.dumps(d))))
        n, e = call(c.execute, dx=c.x * 1e-3)
        if e is None:
            same_curve(j, "traded curve dict", n, CPC.from_dict(n.asdict()))
    CC = CPCContainer(curves)
    if len({c.cid for c in CC}) < len(curves):
        return
    t.add("containers")

    def same(key, C2, exact=True):
        if j.true(key + " length", len(C2) == len(CC), "%d curves became %d" % (len(CC), len(C2))):
            for a, b in zip(CC, C2):
                same_curve(j, key, a, b, exact)

    same("dicts", CPCContainer.from_dicts(CC.asdicts()))
    df = CC.asdf()
    same("df", CPCContainer.from_df(df))
    same("df reset", CPCContainer.from_df(df.reset_index()))
    same("df twice", CPCContainer.from_df(CPCContainer.from_df(df).asdf()))
    txt = df.to_csv()
    if all(c.descr != "" for c in CC):
        same("csv", CPCContainer.from_df(pd.read_csv(io.StringIO(txt))), exact=False)
    same("copy", CC.copy())


def c04_items(tier):
    n = len(pool())
    for k in range(1, (5 if tier == "thorough" else 4)):
        for c in itertools.permutations(range(n), k):
            if k <= 2 or tier == "thorough" or c == tuple(sorted(c)) or c[0] > c[-1]:
                yield c


# ---------------------------------------------------------------- C05 containers

TS = TokenScale.from_tokenscales(ETH=1e3, USDC=1.0)
C5 = [("e1", "ETH/USDC", 2000.0, 1e5), ("e2", "ETH/USDC", 2100.0, 1e3), ("r1", "USDC/ETH", 1 / 1900.0, 1e4),
      ("l1", "LINK/ETH", 0.004, 50.0), ("l2", "LINK/USDC", 8.0, 70.0), (None, "ETH/USDC", 1950.0, 10.0), (None, "WBTC/LINK", 3000.0, 9.0)]
C5OPS = ["add", "iadd", "inv", "list", "tuple-iadd", "gen"]


def c5curve(i):
    cid, pair, p, k = C5[i]
    return CPC.from_pk(p=p, k=k, pair=pair, cid=cid)


def c05_seqs(depth):
    """every way of building a container: initial curves, then add operations"""
    idx = range(len(C5))
    for n0 in (0, 1, 2):
        for init in itertools.permutations(idx, n0):
            if n0 == 2 and init[0] > init[1] and init[0] not in (2, 5):
                continue
            rest = [i for i in idx if i not in init]
            yield init, ()
            for d in range(1, depth + 1):
                for adds in itertools.permutations(rest, d):
                    if d == 2 and (adds[0] * 7 + adds[1] + n0) % 2 and depth < 3:
                        continue
                    for how in itertools.product(C5OPS, repeat=d) if d == 1 else [tuple(C5OPS[(adds[0] + q * 5 + n0 + adds[q]) % 6] for q in range(d))]:
                        yield init, tuple(zip(adds, how))
    for init in ((), (0,), (0, 2)):             # the same curve in the container more than once
        for a in (0, 2, 4):
            for how in C5OPS:
                yield init, ((a, how), (1, "add"), (a, "again"), (3, how))
                yield init, ((a, how), (a, "again"), (1, "list"), (a, "again"))


def c05_build(init, adds):
    C = CPCContainer([CPCInverter(c5curve(i)) if i == 2 else c5curve(i) for i in init], tokenscale=TS)
    model = [c5curve(i) for i in init]
    for i, how in adds:
        c = c5curve(i)
        if how == "again":                      # the very object that is in the container already
            c, how = next((x for x in C if x.cid == c.cid), c), "add"
        model.append(c)
        if how == "add":
            C.add(c)
        elif how == "iadd":
            C += c
        elif how == "inv":
            C.add(CPCInverter(c))
        elif how == "list":
            C.add([c])
        elif how == "tuple-iadd":
            C += (c,)
        else:
            C.add(x for x in [c])
    for i, m in enumerate(model):
        if m.cid is None:
            m.setcid(i)
    return C, model


def rev(p):
    return "/".join(p.split("/")[::-1])


def c05_check(C, model, t, case, deep=True):
    j = J(t, case)
    ids = [m.cid for m in model]
    got = [c.cid for c in C]
    if not j.true("order of curves", got == ids, "%s, expected %s" % (got, ids)):
        return
    j.true("length", len(C) == len(model), "")
    for i, (c, m) in enumerate(zip(C, model)):
        j.true("curve", (c.pair, c.k, c.x) == (m.pair, m.k, m.x), "%r" % c)
        j.true("index", C[i] is c and ids[C.curveix(c)] == c.cid and (C.curveix(c) == i or ids.count(c.cid) > 1) and C.bycid(c.cid) is C[C.curveix(c)] and c in C, "index %d: %r %r" % (i, C.curveix(c), C.bycid(c.cid)))
        j.true("token scale", c.scalex == TS.scale(c.tknx) and c.scaley == TS.scale(c.tkny), "scale %r %r" % (c.scalex, c.scaley))
    j.true("unknown", C.bycid("nope") is None and c5curve(0) not in CPCContainer([]) and C.curveix(CPC.from_xy(x=123.0, y=1.0, cid="zz")) is None, "")
    pm = {}
    for m in model:
        b, q = m.pair.split("/")
        pm.setdefault(frozenset((b, q)), []).append(m)
    j.true("pairs", C.pairs() == {CPair(m.pair).primary for m in model} and len(C.pairs()) == len(pm), "%s" % C.pairs())
    j.true("pairs raw", C.pairs(standardize=False) == {m.pair for m in model}, "")
    j.true("cids", C.cids() == tuple(ids) and C.cids(asset=True) == set(ids), "%s" % (C.cids(),))
    tk = {x for m in model for x in m.pair.split("/")}
    j.true("tokens", C.tkns() == tk and C.tokens() == tk and C.tokens_s() == ",".join(sorted(tk)), "%s" % C.tkns())
    j.true("tknxs", C.tknxs() == {m.pair.split("/")[0] for m in model} and C.tknxl() == [m.pair.split("/")[0] for m in model], "%s" % C.tknxl())
    j.true("tknys", C.tknys() == {m.pair.split("/")[1] for m in model} and C.tknyl() == [m.pair.split("/")[1] for m in model], "%s" % C.tknyl())
    tt = C.tokentable()
    want = {x: ([i for i, m in enumerate(model) if m.pair.split("/")[0] == x], [i for i, m in enumerate(model) if m.pair.split("/")[1] == x]) for x in tk}
    j.true("tokentable", {k: (list(v.x), list(v.y)) for k, v in tt.items()} == want, "%s" % tt)
    # price: plain average over the curves of the pair, whatever their direction
    for pr in ("ETH/USDC", "USDC/ETH", "LINK/ETH", "WBTC/LINK", "AAA/BBB"):
        b, q = pr.split("/")
        ms = [m for m in model if set(m.pair.split("/")) == {b, q}]
        v = C.price(b, q)
        if not ms:
            j.true("price none", v is None, "%r" % v)
        else:
            prim = CPair(pr).primary
            w = sum(m.p if m.pair == prim else 1 / m.p for m in ms) / len(ms)
            j.eq("price", v, w if pr == prim else 1 / w, 1e-9, 0, pr)

    def q(key, f, want, *a, **k):
        """a query in its three result forms"""
        t.add("queries")
        for form in (dict(), dict(ascc=False), dict(asgenerator=True)):
            r, e = call(f, *a, **k, **form)
            if not j.true(key, e is None, "%s%r %r raised %r" % (key, a, k, e)):
                return
            r2 = list(r)
            j.true(key, sorted(map(str, (c.cid for c in r2))) == sorted(map(str, want)), "%s%r %r: %s, expected %s" % (key, a, k, [c.cid for c in r2], want))
            if not form:
                j.true(key + " type", isinstance(r, CPCContainer), "%r" % type(r))
                if len(r):
                    j.true(key + " scale", r.scale("ETH") == TS.scale("ETH"), "token scale lost")
            if "ascc" in form:
                j.true(key + " type", isinstance(r, tuple), "%r" % type(r))

    ps = ("ETH/USDC", "USDC/ETH", "LINK/ETH", "ETH/LINK", "LINK/WBTC", "AAA/BBB")
    for p in ps:
        q("bypair", C.bypair, [m.cid for m in model if m.pair in (p, rev(p))], p)
        q("bypair directed", C.bypair, [m.cid for m in model if m.pair == p], p, directed=True)
        q("bp", C.bp, [m.cid for m in model if m.pair in (p, rev(p))], p)
        q("bp directed", C.bp, [m.cid for m in model if m.pair == p], p, directed=True)
    for sel in itertools.chain(itertools.combinations(ps, 1), itertools.combinations(ps, 2), [("ETH/USDC", "USDC/ETH", "LINK/WBTC"), ()]):
        for form in (set(sel), list(sel), ",".join(sel), ", ".join(sel)) if sel else (set(), []):
            q("bypairs", C.bypairs, [m.cid for m in model if m.pair in sel or rev(m.pair) in sel], form)
            q("bypairs directed", C.bypairs, [m.cid for m in model if m.pair in sel], form, directed=True)
    q("bypairs all", C.bypairs, ids)
    for x in ("ETH", "USDC", "LINK", "WBTC", "NONE"):
        q("bytknx", C.bytknx, [m.cid for m in model if m.pair.split("/")[0] == x], x)
        q("bytkny", C.bytkny, [m.cid for m in model if m.pair.split("/")[1] == x], x)
    for xs in (("ETH",), ("ETH", "USDC"), ("LINK", "NONE"), ()):
        for form in ((set(xs), list(xs), ",".join(xs), ", ".join(xs)) if xs else ([], set())):
            q("bytknxs", C.bytknxs, [m.cid for m in model if m.pair.split("/")[0] in xs], form)
            q("bytknys", C.bytknys, [m.cid for m in model if m.pair.split("/")[1] in xs], form)
    j.true("bytknxs all", [c.cid for c in C.bytknxs()] == ids and [c.cid for c in C.bytknys()] == ids, "")
    subs = [ids[:1], ids[1:3], ids[::2], ids[::-1], []]
    for inc in subs + [None]:
        for exc in subs[:4] + [None]:
            q("bycids", C.bycids, [i for i in (ids if inc is None else inc) if i not in (exc or [])], inc, exclude=exc)
    # queries leave the container alone
    j.true("queries change nothing", [c.cid for c in C] == ids and len(C) == len(model), "")
    if deep:
        D = C.copy()
        c05_check(D, model, t, dict(case, copy=True), deep=False)
        D.add(CPC.from_xy(x=1.0, y=1.0, pair="ETH/USDC", cid="extra"))
        j.true("copy is independent", [c.cid for c in C] == ids and C.bycid("extra") is None and len(C.bypair("ETH/USDC")) == len([m for m in model if m.pair in ("ETH/USDC", "USDC/ETH")]), "")


def c05(item, t):
    core.arm()
    init, adds = item
    case = dict(init=list(init), adds=[list(a) for a in adds])
    try:
        C, model = c05_build(init, adds)
    except Exception as e:
        return t.violation("build", "building %s raised %r" % (case, e), {"case": case})
    t.add("containers")
    c05_check(C, model, t, case, deep=len(adds) <= 1)


# ---------------------------------------------------------------- C06 primary pairs, filters

C6T = ("USDC", "USDC-eB48", "DAI", "ETH", "WETH-6Cc2", "WBTC", "BNT-FF1C", "AAVE", "LINK-86CA", "USDT-1ec7")
NUMERAIRE = ["USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC"]


def c06_pair(item, t):
    from carbon.tools.simplepair import SimplePair
    b, q = item
    j = J(t, ["pair", b, q])
    s = lambda x: x.split("-")[0]
    rank = lambda x: NUMERAIRE.index(s(x)) if s(x) in NUMERAIRE else 10 ** 6
    prim = rank(q) < rank(b) if rank(q) != rank(b) else b < q
    for cls in (CPair, SimplePair):
        t.add("pairs")
        for p in (cls(f"{b}/{q}"), cls((b, q)), cls([b, q]), cls.from_tokens(b, q), cls(CPCContainer.Pair(f"{b}/{q}") if cls is CPair else cls(f"{b}/{q}"))):
            j.true("tokens", (p.tknb, p.tknq, p.tknx, p.tkny, p.pair, str(p), p.pairr, p.pairt, p.pairrt)
                   == (b, q, b, q, f"{b}/{q}", f"{b}/{q}", f"{q}/{b}", (b, q), (q, b)), repr(p))
        r = cls(f"{q}/{b}")
        j.true("one of the two directions is primary", bool(p.isprimary) != bool(r.isprimary), "%s" % p)
        j.true("numeraire order", bool(p.isprimary) == prim, "%s isprimary=%s" % (p, p.isprimary))
        j.true("primary", p.primary == r.primary == (p.pair if prim else r.pair), "%s %s" % (p.primary, r.primary))
        j.true("secondary", p.secondary == r.secondary == (r.pair if prim else p.pair), "%s" % p.secondary)
        for x in (0.5, 2000.0):
            j.eq("primary_price", p.primary_price(x), x if prim else 1 / x); j.eq("pp", r.pp(1 / x), x if prim else 1 / x)
        bad, e = call(cls, (b,))
        j.true("bad pair", e is not None, repr(bad))
    j.true("other", CPair(f"{b}/{q}").other(b) == q and CPair(f"{b}/{q}").other(q) == b and CPair(f"{b}/{q}").otherp(b) == s(q), "")
    v, e = call(CPair(f"{b}/{q}").other, "FOO")
    j.true("other foreign", e is not None, repr(v))
    j.true("pretty", CPair.prettify_pair(f"{b}/{q}") == f"{s(b)}/{s(q)}" and CPair(f"{b}/{q}").tknbp == s(b) and CPair(f"{b}/{q}").tknqp == s(q), "")
    j.true("wrap", CPair.unwrap(CPair.wrap([f"{b}/{q}", f"{q}/{b}"])) == (f"{b}/{q}", f"{q}/{b}"), "")


CONDS = {
    "bothin": lambda b, q, s: b in s and q in s, "onein": lambda b, q, s: b in s or q in s, "contains": lambda b, q, s: b in s or q in s,
    "notin": lambda b, q, s: b not in s and q not in s, "tknbin": lambda b, q, s: b in s, "tknbnotin": lambda b, q, s: b not in s,
    "tknqin": lambda b, q, s: q in s, "tknqnotin": lambda b, q, s: q not in s}
F6 = ("ETH/USDC", "WBTC/USDC", "LINK/USDC", "LINK/ETH", "WBTC/ETH", "BNT/LINK", "BNT/ETH")
SETS = (("ETH",), ("USDC", "ETH"), ("LINK", "BNT"), ("NONE",), ("ETH", "USDC", "WBTC", "LINK", "BNT"))


def c06_filter(item, t):
    conds, anyall, given = item
    j = J(t, ["filter", [list(c) for c in conds], anyall, given])
    CC = CPCContainer([CPC.from_xy(x=1.0, y=1.0, pair=p) for p in F6])
    t.add("filters")
    names = [c[0] for c in conds]
    kw = {}
    for i, (n, si) in enumerate(conds):
        key = n if names.count(n) == 1 else "%s_%d" % (n, i)
        s = SETS[si]
        kw[key] = (s, list(s), ",".join(s), ", ".join(s))[(i + si) % 4]
    ps = {None: None, "list": list(F6[::2]), "set": set(F6[1::2])}[given]
    base = set(ps) if ps is not None else {CPair(p).primary for p in F6}
    want = set()
    for p in base:
        b, q = p.split("/")
        r = [CONDS[n](b, q, SETS[si]) for n, si in conds]
        if not conds or (any(r) if anyall == "any" else all(r)):
            want.add(p)
    v, e = call(CC.filter_pairs, ps, anyall=anyall, **kw)
    if j.true("filter", e is None, "raised %r" % (e,)):
        j.true("filter", set(v) == want, "%s %s: %s, expected %s" % (kw, anyall, sorted(v), sorted(want)))
    v, e = call(CC.fp, ps, anyall=anyall, **kw)
    j.true("filter alias", e is None and set(v) == want, "fp: %r %r" % (v, e))
    if len(conds) == 1 and anyall == "all" and conds[0][0] in ("bothin", "onein"):
        f = CC.fpb if conds[0][0] == "bothin" else CC.fpo
        j.true("filter alias", set(f(SETS[conds[0][1]], ps)) == want, "")


def c06_items():
    for b in C6T:
        for q in C6T:
            if b != q:
                yield ("pair", (b, q))
    one = [(n, i) for n in CONDS for i in range(len(SETS))]
    for given in (None, "list", "set"):
        yield ("filter", ((), "all", given))
        for aa in ("any", "all"):
            for c in one:
                yield ("filter", ((c,), aa, given))
            for a, b in itertools.combinations(one, 2):
                yield ("filter", ((a, b), aa, given))
    for a, b in itertools.combinations(one, 2):
        yield ("filter", ((a, b, one[(one.index(a) * 3 + one.index(b)) % len(one)]), "all", None))


# ---------------------------------------------------------------- C07 price estimates

C7 = [("ETH/USDC", 2000.0, 1e6, "full"), ("ETH/USDC", 2200.0, 1e4, "in"), ("USDC/ETH", 1 / 1800.0, 1e5, "full"), ("ETH/USDC", 3000.0, 1e8, "atmax"),
      ("USDC/ETH", 1 / 1000.0, 1e9, "atmin"), ("LINK/ETH", 0.004, 50.0, "wide"), ("LINK/USDC", 8.0, 70.0, "full"), ("ETH/LINK", 240.0, 5e3, "low"),
      ("USDC/LINK", 0.2, 1e7, "empty")]


def c07(combo, t):
    import numpy as np
    j = J(t, list(combo))
    cs = []
    for n, i in enumerate(combo):
        pair, p, k, rg = C7[i]
        r = Ref(p, k, rg)
        cs.append(CPC.from_pk(p=p, k=k, x_act=r.xa, y_act=r.ya, pair=pair, cid="c%d" % n))
    CC = CPCContainer(cs)
    t.add("containers")
    toks = ("ETH", "USDC", "LINK", "WBTC")

    def want(b, q):
        if b == q:
            return 1.0
        sel = [C7[i] for i in combo if set(C7[i][0].split("/")) == {b, q} and C7[i][3] not in ("atmax", "atmin", "empty")]
        if not sel:
            return None
        # average of the prices in this direction, weighted by the size of the curves
        ps = [(p if pair == f"{b}/{q}" else 1 / p, sqrt(k)) for pair, p, k, _ in sel]
        return sum(p * w for p, w in ps) / sum(w for _, w in ps)

    for b, q in itertools.product(toks, toks):
        w = want(b, q)
        for kw in (dict(tknb=b, tknq=q), dict(pair=f"{b}/{q}")):
            t.add("estimates")
            v, e = call(CC.price_estimate, raiseonerror=False, **kw)
            v2, e2 = call(CC.price_estimate, **kw)
            if w is None:
                j.true("no estimate", e is None and v is None and isinstance(e2, ValueError), "%s: %r %r / %r %r" % (kw, v, e, v2, e2))
            else:
                j.eq("estimate", v, w, 1e-9, 0, str(kw)); j.eq("estimate", v2, w, 1e-9, 0, str(kw))
                if b != q:
                    ps, ws = CC.price_estimate(result=CC.PE_DATA, **kw)
                    j.eq("estimate data", float(np.average(ps, weights=ws)), w, 1e-9)
                    crv = CC.price_estimate(result=CC.PE_CURVES, **kw)
                    j.true("estimate curves", all({c[0].tknb, c[0].tknq} == {b, q} for c in crv) and len(crv) == len(ps), repr(crv))
            if b != q:
                j.true("estimate pair", CC.price_estimate(result=CC.PE_PAIR, **kw) == f"{b}/{q}", "")
    # price estimates as table: quote tokens outer, base tokens inner
    for qs in (["USDC"], ["USDC", "ETH"], ["LINK"]):
        for bs in (["ETH"], ["ETH", "USDC", "LINK"]):
            ws = [[want(b, q) for b in bs] for q in qs]
            missing = any(x is None for r in ws for x in r)
            v, e = call(CC.price_estimates, tknqs=qs, tknbs=bs)
            t.add("tables")
            if missing:
                j.true("table missing", isinstance(e, ValueError), "%r" % (v,))
            for kw in (dict(raiseonerror=False), dict(raiseonerror=False, unwrapsingle=False)):
                v, e = call(CC.price_estimates, tknqs=qs, tknbs=bs, **kw)
                if not j.true("table", e is None, "raised %r" % (e,)):
                    continue
                rows = [list(v)] if len(qs) == 1 and kw.get("unwrapsingle", True) else [list(r) for r in v]
                ok = len(rows) == len(ws) and all(len(r) == len(w) and all((x is None) == (y is None) and (y is None or near(x, y)) for x, y in zip(r, w)) for r, w in zip(rows, ws))
                j.true("table", ok, "%s x %s: %s, expected %s" % (qs, bs, rows, ws))
    for bad in (dict(), dict(tknb="ETH"), dict(tknb="ETH", tknq="USDC", pair="ETH/USDC")):
        v, e = call(CC.price_estimate, **bad)
        j.true("estimate arguments", e is not None, "%s accepted" % bad)


# ---------------------------------------------------------------- C08 inverted curves

def c08(shape, t):
    p, k, rg, pair = shape
    j = J(t, list(shape))
    r, c = build(shape)
    i = CPCInverter(c)
    m = CPC.from_pk(p=1 / p, k=k, x_act=r.ya if r.pmin else None, y_act=r.xa if r.pmax else None, pair=rev(pair), cid="c1", fee=0.01, descr="d")    # the same curve written the other way round
    for a in ("cid", "tknb", "tknq", "tknx", "tkny", "tknbp", "tknqp", "tknxp", "tknyp", "pair", "pairp"):
        j.true("inverted " + a, getattr(i, a) == getattr(m, a), "%s=%r, expected %r" % (a, getattr(i, a), getattr(m, a)))
    j.true("inverted p_convention", i.p_convention() == m.p_convention(), i.p_convention())
    j.true("inverted pairo", (i.pairo.pair, i.pairo.primary) == (m.pairo.pair, m.pairo.primary), "")
    for a in ("p", "x", "y", "k", "x_act", "y_act", "x_min", "x_max", "y_min", "y_max", "p_min", "p_max"):
        v, e = call(getattr, i, a)
        w = getattr(m, a)
        if w is None:
            j.true("inverted " + a, v is None and e is None, "%s=%r %r, expected None" % (a, v, e))
        else:
            j.eq("inverted " + a, v, w, 1e-6, 1e-8 * (m.x if "x" in a else m.y))
    ex, ey = 1e-8 * m.x, 1e-8 * m.y

    def cmp(key, v, w, abs_):
        if w is None:
            j.true(key, v is None, "%r, expected None" % (v,))
        else:
            j.eq(key, v, w, 1e-6, abs_)
    for f in (0.3, 0.97, 1.0, 1.04, 3.0, None):
        q = None if f is None else m.p * f
        for ign in (False, True):
            t.add("points")
            for nm in ("xyfromp_f", "dxdyfromp_f"):
                for un in (False, True):
                    v, w = getattr(i, nm)(q, ignorebounds=ign, withunits=un), getattr(m, nm)(q, ignorebounds=ign, withunits=un)
                    j.true("inverted " + nm, len(v) == len(w) and tuple(v[3:]) == tuple(w[3:]), "%r vs %r" % (v, w))
                    for a, b, ab in zip(v[:3], w[:3], (ex, ey, 0)):
                        j.eq("inverted " + nm, a, b, 1e-6, ab)
            x, y = m.x * (f or 1), m.y * (f or 1)
            edge = f in (1.0, None) and rg in ("atmax", "atmin", "empty")
            if not edge:
                cmp("inverted yfromx_f", i.yfromx_f(x, ignorebounds=ign), m.yfromx_f(x, ignorebounds=ign), ey)
                cmp("inverted xfromy_f", i.xfromy_f(y, ignorebounds=ign), m.xfromy_f(y, ignorebounds=ign), ex)
                cmp("inverted dyfromdx_f", i.dyfromdx_f(x - m.x, ignorebounds=ign), m.dyfromdx_f(x - m.x, ignorebounds=ign), ey)
                cmp("inverted dxfromdy_f", i.dxfromdy_f(y - m.y, ignorebounds=ign), m.dxfromdy_f(y - m.y, ignorebounds=ign), ex)
    # trades on the inverted curve
    sides = (("dx", 0.001 * m.x), ("dy", 0.001 * m.y), ("dx", -0.4 * m.x_act), ("dy", -0.4 * m.y_act), ("dx", -1.5 * m.x), ("dy", -1.5 * m.y), ("dx", -0.7 * m.x), ("dy", -0.7 * m.y), ("dx", 3 * m.x), ("dy", 3 * m.y))
    for (side, a), ign in itertools.product(sides, (None, False, True)):
        if abs(a) < 1e-9 * (m.x if side == "dx" else m.y):
            continue
        kw = {side: a} if ign is None else {side: a, "ignorebounds": ign}
        v, e = call(i.execute, **kw)
        w, e2 = call(m.execute, **kw)
        t.add("trades")
        if j.true("inverted execute", (e is None) == (e2 is None), "%s: %r vs %r" % (kw, e, e2)) and e is None:
            j.true("inverted execute", isinstance(v, CPCInverter), "not inverted")
            for at in ("x", "y", "x_act", "y_act", "p", "k"):
                j.eq("inverted execute " + at, getattr(v, at), getattr(w, at), 1e-6, 1e-7 * (m.x + abs(v.x) if "x" in at else m.y + abs(v.y)))
    # wrap: same primary pair for both directions; unwrap gives back the curves
    cs = [c, CPC.from_pk(p=1 / p, k=k, pair=rev(pair), cid="c2"), CPC.from_pk(p=3.0, k=k, pair="LINK/USDC", cid="c3")]
    for gen in (False, True):
        w = CPCInverter.wrap(cs, asgenerator=gen)
        w = tuple(w)
        j.true("wrap", [x.cid for x in w] == ["c1", "c2", "c3"] and all(x.pairo.isprimary for x in w) and w[0].pair == w[1].pair == c.pairo.primary, "%r" % [x.pair for x in w])
        for x, y in zip(w, cs):
            j.eq("wrap price", x.p, y.pp)
        u = tuple(CPCInverter.unwrap(w, asgenerator=gen))
        j.true("unwrap", all(a is b for a, b in zip(u, cs)) and len(u) == 3, "")
    CC = CPCContainer(CPCInverter.wrap(cs))
    j.true("container unwraps", all(a is b for a, b in zip(CC, cs)), "")


# ---------------------------------------------------------------- C09 pair analysis tables

C9 = [("WETH-6Cc2/USDC-eB48", 2000.0, 1e6, "full"), ("WETH-6Cc2/USDC-eB48", 2200.0, 4e4, "in"), ("USDC-eB48/WETH-6Cc2", 1 / 1800.0, 1e5, "full"), ("USDC-eB48/WETH-6Cc2", 1 / 2100.0, 3e3, "wide"),
      ("LINK-86CA/WETH-6Cc2", 0.004, 50.0, "wide"), ("LINK-86CA/USDC-eB48", 8.0, 70.0, "full"), ("WETH-6Cc2/LINK-86CA", 240.0, 5e3, "low"), ("DAI-1d0F/USDC-eB48", 1.01, 1e7, "empty")]
C9P = ((None, None), ("list", ["WETH-6Cc2/USDC-eB48"]), ("list", ["WETH-6Cc2/LINK-86CA", "USDC-eB48/DAI-1d0F"]), ("str", "USDC-eB48/WETH-6Cc2, LINK-86CA/USDC-eB48"))


def c09(item, t):
    combo, sel = item
    j = J(t, [list(combo), sel])
    cs = []
    for n, i in enumerate(combo):
        pair, p, k, rg = C9[i]
        r = Ref(p, k, rg)
        cs.append(CPC.from_pk(p=p, k=k, x_act=r.xa, y_act=r.ya, pair=pair, cid="c%d" % n))
    CC = CPCContainer(cs)
    t.add("containers")
    pairs = C9P[sel][1]
    names = None if pairs is None else [x.strip() for x in pairs.split(",")] if isinstance(pairs, str) else pairs
    ms = [c for c in cs if names is None or c.pair in names or rev(c.pair) in names]
    s = lambda x: x.split("-")[0]

    def pp(c):
        b, q = c.pair.split("/")
        rank = lambda x: NUMERAIRE.index(s(x)) if s(x) in NUMERAIRE else 10 ** 6
        prim = rank(q) < rank(b) if rank(q) != rank(b) else b < q
        return (c.pair if prim else rev(c.pair)), prim, (c.p if prim else 1 / c.p)

    def table(target, **kw):
        if not ms and target not in (CC.AT_LIST, CC.AT_LISTDF):
            return None
        t.add("tables")
        v, e = call(CC.pairs_analysis, target=target, pairs=pairs, **kw)
        return v if j.true(target, e is None, "raised %r" % (e,)) else None

    def isnan(x):
        return x is None or x != x

    def eq(key, v, w, what=""):
        if w is None:
            j.true(key, isnan(v), "%s: %r, expected none" % (what, v))
        elif w == inf:
            j.true(key, v == inf, "%s: %r, expected infinity" % (what, v))
        else:
            j.eq(key, v, w, 1e-9, 1e-12, what)
    head = CC._record()
    want = [dict(tknx=c.tknx, tkny=c.tkny, tknb=c.pair.split("/")[0], tknq=c.pair.split("/")[1], pair=c.pair, primary=pp(c)[0], isprimary=pp(c)[1], p=c.p, pp=pp(c)[2], x=c.x, xa=c.x_act, y=c.y, ya=c.y_act, cid=c.cid) for c in ms]
    v = table(CC.AT_LIST)
    if v is not None and j.true("list", len(v) == len(want), "%d records for %d curves" % (len(v), len(want))):
        for r, w in zip(v, want):
            d = dict(zip(head, r))
            for k in w:
                j.true("list", near(d[k], w[k], 1e-9) if isinstance(w[k], float) else d[k] == w[k], "%s of %s: %r, expected %r" % (k, w["cid"], d[k], w[k]))
    v = table(CC.AT_LISTDF)
    if v is not None and j.true("listdf", list(v["cid"]) == [w["cid"] for w in want], "%r" % list(v["cid"])):
        for k in (want[0] if want else ()):
            j.true("listdf", all(near(a, w[k], 1e-9) if isinstance(w[k], float) else a == w[k] for a, w in zip(v[k], want)), "column %s: %r" % (k, list(v[k])))
    vol = {}
    for c in ms:
        vol[(c.tknx, c.cid)] = (c.x, c.x_act)
        vol[(c.tkny, c.cid)] = (c.y, c.y_act)
    v = table(CC.AT_VOLUMES)
    if v is not None and j.true("volumes", sorted(v.index) == sorted(vol), "rows %s" % list(v.index)):
        for ix, row in v.iterrows():
            a, b = vol[ix]
            eq("volumes", row["amtv"], a, "virtual amount %s" % (ix,)); eq("volumes", row["amt"], b, "amount %s" % (ix,)); eq("volumes", row["lvg"], a / b if b else inf, "leverage %s" % (ix,))
    v = table(CC.AT_VOLSAGG)
    if v is not None:
        tk = sorted({x for x, _ in vol})
        if j.true("volumes by token", sorted(v.index) == tk, "rows %s" % list(v.index)):
            for x in tk:
                av, aa = [a for (y, _), (a, b) in vol.items() if y == x], [b for (y, _), (a, b) in vol.items() if y == x]
                for col, l in (("amtv", av), ("amt", aa)):
                    eq("volumes by token", v.loc[x][(col, "sum")], sum(l), "%s %s" % (col, x))
                    if sum(l) > 0:
                        h = sum(z * z for z in l) / sum(l) ** 2
                        eq("volumes by token", v.loc[x][(col, "herfindahl")], h, "concentration %s %s" % (col, x)); eq("volumes by token", v.loc[x][(col, "herfindahlN")], 1 / h, "effective number %s %s" % (col, x))
                eq("volumes by token", v.loc[x][("n", "count")], len(av), "curves with %s" % x)
                pe = 1.0 if s(x) == "WETH" else CC.price(x, "WETH-6Cc2")
                g = v.loc[x][("price_eth", "")]
                eq("volumes by token", g, pe, "price of %s" % x)
                eq("volumes by token", v.loc[x][("amtv_eth", "")], None if pe is None else pe * sum(av), "virtual value of %s" % x)
                eq("volumes by token", v.loc[x][("amt_eth", "")], None if pe is None else pe * sum(aa), "value of %s" % x)
                if sum(aa) > 0:
                    eq("volumes by token", v.loc[x][("lvg", "")], None if pe is None else sum(av) / sum(aa), "leverage of %s" % x)
    dp = {}
    for c in ms:
        dp.setdefault(tuple(c.pair.split("/")), []).append(c)

    def cell(df, b, q):
        return df.loc[b][q] if b in df.index and q in df.columns else 0

    def cells(key, df, f, keys):
        if df is None:
            return
        tks = {x for y in keys for x in y} | set(df.index) | set(df.columns)
        for b, q in itertools.product(tks, tks):
            v = cell(df, b, q)
            if not f(b, q, v):
                return j.true(key, False, "%s/%s: %r" % (b, q, v))
        j.true(key, True, "")
    zero = lambda v: v == "" or isnan(v) or v == 0
    for nm in ("PIVOTXY", "PIVOTBQ"):
        cells(nm, table(getattr(CC, "AT_" + nm)), lambda b, q, v: v == len(dp.get((b, q), ())), dp)
        cells(nm + " symmetric", table(getattr(CC, "AT_" + nm + "S")), lambda b, q, v: v == len(dp.get((b, q), ())) + len(dp.get((q, b), ())), dp)
    cells("pretty count", table(CC.AT_PIVOTBQ, pretty=True), lambda b, q, v: v == len(dp[(b, q)]) if (b, q) in dp else v == "" or v == 0 and not isinstance(v, str), dp)
    ps = {k: [c.p for c in v] for k, v in dp.items()}
    for nm, f in (("PRICES", lambda l: sum(l) / len(l)), ("MAX", max), ("MIN", min)):
        for pretty in (False, True):
            cells(nm, table(getattr(CC, "AT_" + nm), pretty=pretty), lambda b, q, v: near(v, f(ps[(b, q)]), 1e-9) if (b, q) in ps else zero(v), dp)

    def sds(l):                     # standard deviation of the population or of the sample
        m = sum(l) / len(l)
        z = sum((x - m) ** 2 for x in l)
        return [sqrt(z / len(l))] + ([sqrt(z / (len(l) - 1))] if len(l) > 1 else [])
    for nm, rel in (("SD", False), ("SDPC", True)):
        def sd(b, q, v):
            if (b, q) not in ps:
                return zero(v)
            l = ps[(b, q)]
            m = sum(l) / len(l) if rel else 1.0
            return len(l) == 1 and zero(v) or any(abs(v - z / m) <= 1e-9 * abs(v) for z in sds(l)) if v != "" else len(l) == 1
        cells(nm, table(getattr(CC, "AT_" + nm)), sd, dp)
    v = table(CC.AT_PRICELIST)
    if v is not None and j.true("price list", sorted(v.index) == sorted(tuple(c.pair.split("/")) + (c.cid,) for c in ms), "rows %s" % list(v.index)):
        for c in ms:
            r = v.loc[tuple(c.pair.split("/")) + (c.cid,)]
            eq("price list", r["p"], c.p, c.cid); eq("price list", r["pp"], pp(c)[2], c.cid)
            j.true("price list", r["pair"] == c.pair and r["primary"] == pp(c)[0], "%s %s" % (r["pair"], r["primary"]))
    v = table(CC.AT_PLAGG)
    if v is not None and j.true("price aggregates", sorted(v.index) == sorted(dp), "rows %s" % list(v.index)):
        for k, l in dp.items():
            r = v.loc[k]
            z = [pp(c)[2] for c in l]
            m = sum(z) / len(z)
            eq("price aggregates", r[("pp", "mean")], m, "mean"); eq("price aggregates", r[("pp", "count")], len(z), "count")
            eq("price aggregates", r[("pp", "min")], min(z), "min"); eq("price aggregates", r[("pp", "max")], max(z), "max")
            eq("price aggregates", r[("pp", "rangepc100")], (max(z) - min(z)) / max(z) * 100, "range"); eq("price aggregates", r[("pp", "herfindahl")], sum(x * x for x in z) / sum(z) ** 2, "concentration")
            g = r[("pp", "sdpc100")]
            j.true("price aggregates", any(near(g, x / m * 100, 1e-9, 1e-9) for x in sds(z)), "deviation %r of %r" % (g, z))
            j.true("price aggregates", r[("primary", "first")] == pp(l[0])[0], "")
    # statistics of the curves of one directed pair, and the printed list
    for k, l in dp.items():
        st = CC.xystats(l)
        for w, d in (([c.x for c in l], st[0]), ([c.y for c in l], st[1])):
            eq("statistics", d.mean, sum(w) / len(w)); eq("statistics", d.minv, min(w)); eq("statistics", d.maxv, max(w))
            j.true("statistics", any(near(float(d.sdev), x, 1e-6, 1e-9 * max(w)) for x in sds(w)), "deviation")
    if cs:
        lines = CC.format().split("\n")
        j.true("printed list", len(lines) == 2 + len(cs) and lines[2:] == CC.format(heading=False).split("\n"), CC.format())
        for ln, c in zip(lines[2:], cs):
            g = lambda x, n: "{:,.{n}f}".format(x, n=n)
            j.true("printed list", ln.split() == [c.cid, "/".join(s(x) for x in c.pair.split("/")), g(c.x_act, 3), s(c.tknx), g(c.y_act, 3), s(c.tkny), g(c.p, 2), g(1 / c.p, 2)], ln)
            d = c.description
            j.true("description", all(x in d for x in (repr(c.x_act), repr(c.x), repr(c.y_act), repr(c.y), repr(c.p), str(c.p_min), str(c.p_max), c.tknx, c.tkny, c.cid)), d)
    else:
        v, e = call(CC.format)
        j.true("printed list", e is not None, "%r" % (v,))
    j.true("unchanged", [c.cid for c in CC] == ["c%d" % n for n in range(len(combo))] and all(a is b for a, b in zip(CC, cs)), "container changed")


# ---------------------------------------------------------------- driver

def items(pid, tier):
    th = tier == "thorough"
    if pid == "C01" or pid == "C08":
        return shapes()
    if pid == "C02":
        ps, ks = (PR, KS) if th else ((0.0005, 2000.0), (100.0, 4e10))
        return [((p, k, rg, "ETH/USDC"), ign, 4 if th else 3) for p in ps for k in ks for rg in RG for ign in (False, True)]
    if pid == "C03":
        return list(c03_items())
    if pid == "C04":
        return list(c04_items(tier))
    if pid == "C05":
        return list(c05_seqs(3 if th else 2))
    if pid == "C06":
        return list(c06_items())
    if pid == "C09":
        n = range(len(C9))
        combos = [c for k in range(1, 6 if th else 3) for c in itertools.combinations(n, k)] + ([] if th else list(itertools.combinations(range(7), 3))) + [tuple(n), (), tuple(n)[::-1]]
        return [(c, i) for c in combos for i in (range(len(C9P)) if th or len(c) != 3 else (0,))]
    n = range(len(C7))
    return [c for k in range(1, 6 if th else 5) for c in itertools.combinations(n, k)] + [tuple(n), ()]


def c06(item, t):
    {"pair": c06_pair, "filter": c06_filter}[item[0]](item[1], t)


FN = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
BOUNDS = {
    "C01": "5 prices x 3 sizes x 9 range shapes x 4 pairs; every constructor and function, 11 prices inside/outside the range, with and without bounds",
    "C02": "curves of all 9 range shapes; all trade histories to the depth over a 17-operation alphabet with and without bounds, each trade also split, reversed and phrased in the other token",
    "C03": "3 ranges x 3 price levels x 3 sizes x 4 fills x both tokens x both pair orientations x 3 descriptions",
    "C04": "all containers of up to 3 (thorough: 4) of 7 curves in every order, through dicts, JSON, data frames and CSV",
    "C05": "all ways of building containers of up to 4 (thorough: 5) of 7 curves by construction and the 6 forms of adding; every query with every argument form",
    "C06": "all ordered pairs of 10 tokens; all combinations of up to 2 (and a slice of 3) filter conditions over 5 token sets, any/all, given or default pairs",
    "C07": "all sets of up to 4 (thorough: 5) of 9 curves incl. boundary and reversed ones; all 16 token pairs; price tables",
    "C08": "5 prices x 3 sizes x 9 range shapes x 4 pairs, every function against the curve written the other way round",
    "C09": "all containers of up to 3 (thorough: 5) of 8 curves of 4 pairs in both directions, levered, empty and parallel; all 15 tables, with and without a selection of pairs",
}


def check(pid, tier):
    it = items(pid, tier)

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        if pid != "C02":
            t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 32))
    st = len(tally.sets.get("states", ())) or len(it)
    return tally, dict(states=st, transitions=tally.n.get("transitions") or tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = case["case"]
    if pid == "C02":
        r, cur = build(_tup(c["shape"]))
        for op in c["ops"]:
            n = c02_step(cur, tuple(op), c["ign"], t, c)
            if n is None:
                break
            cur = n
        c02((_tup(c["shape"]), c["ign"], max(1, len(c["ops"]))), t)
    elif pid == "C05":
        c05((_tup(c["init"]), _tup(c["adds"])), t)
    elif pid == "C06":
        c06((c[0], _tup(c[1:]) if c[0] == "filter" else tuple(c[1:])), t)
    else:
        FN[pid](_tup(c), t)
