"""CarbonOrderUI: curve functions (U01), constructors (U02), trading histories (U03), range liquidity and
goal seek (U04).  All enumerated over grids of curve shapes / BFS over operation histories."""
import copy
import itertools
from fractions import Fraction
from math import sqrt

from mc import core, ref
from mc.core import close, num, call
from carbon import CarbonOrderUI, CarbonPair, CarbonSimulatorUI
from carbon.order import Order

BASE, QUOTE = "ETH", "USDC"

RANGES = {              # (start, end) of the raw price range, tkn sold per other token, relative to a level
    "wide": (1.5, 1.0), "narrow": (1.0001, 1.0), "xwide": (16.0, 1.0), "xxwide": (1e4, 1.0), "flat": (1.0, 1.0)}
LEVELS = (1.0, 1500.0, 1e-4, 1e9)
CAPS = (1.0, 3000.0, 1e-6, 1e9)
FILLS = (0.0, 1e-6, 0.25, 0.5, 0.9, 1.0)


def shapes(tier):
    lv = LEVELS if tier == "thorough" else LEVELS[:3]
    cp = CAPS if tier == "thorough" else CAPS[:3]
    for r, l, c, f, tkn in itertools.product(RANGES, lv, cp, FILLS, (BASE, QUOTE)):
        yield (r, l, c, f, tkn)


def raw(shape):
    r, l, c, f, tkn = shape
    a, b = RANGES[r]
    return a * l, b * l, c, c * f


def make(shape):
    pa, pb, z, y = raw(shape)
    tkn = shape[4]
    inv = tkn == BASE           # prices of the pair are USDC per ETH
    return CarbonOrderUI.from_prices(pair="ETH/USDC", tkn=tkn, pa=1 / pa if inv else pa, pb=1 / pb if inv else pb,
                                     yint=z, y=y)


def rcurve(shape):
    pa, pb, z, y = raw(shape)
    return ref.Curve(y, z, pa, pb)


def conv(shape, p):
    return 1 / p if shape[4] == BASE else p


class J:
    """one judged case"""

    def __init__(self, tally, case):
        self.t, self.case = tally, case

    def eq(self, key, got, want, rel=1e-7, abs_=1e-12, what=""):
        self.t.add("comparisons")
        g = num(got)
        if g is None or abs(g - want) > max(abs_, rel * abs(want)):
            self.t.violation(key, "%s %s: got %r, expected %.15g; case %s" % (key, what, got, want, self.case), {"case": self.case})
            return False
        return True

    def true(self, key, cond, what=""):
        self.t.add("comparisons")
        if not cond:
            self.t.violation(key, "%s: %s; case %s" % (key, what, self.case), {"case": self.case})
        return cond

    def none_or_raises(self, key, f, *a, **k):
        """documented error convention: None by default, ValueError with raiseonerror=True"""
        v, e = call(f, *a, **k)
        self.true(key, e is None and v is None, "%s%r: expected None, got %r / %r" % (getattr(f, "__name__", f), a, v, e))
        v, e = call(f, *a, raiseonerror=True, **k)
        self.true(key, isinstance(e, ValueError), "%s%r raiseonerror: expected ValueError, got %r / %r" % (
            getattr(f, "__name__", f), a, v, e))


# ---------------------------------------------------------------- U01

def u01(shape, t):
    j = J(t, list(shape))
    o, e = call(make, shape)
    if e is not None:
        return t.violation("construct", "cannot construct %s: %r" % (shape, e), {"case": list(shape)})
    c = rcurve(shape)
    z, y = c.z, c.y
    flat = shape[0] == "flat"
    cv = lambda p: conv(shape, p)
    # tolerance: sqrt(pa)-sqrt(pb) loses digits when the range is narrow
    tol = 1e-7
    # parameters of the range
    j.eq("pa", o.pa, cv(c.pa)); j.eq("pb", o.pb, cv(c.pb)); j.eq("p_start", o.p_start, cv(c.pa)); j.eq("p_end", o.p_end, cv(c.pb))
    j.eq("py", o.py, cv(c.pa)); j.eq("px", o.px, cv(c.pb))
    j.eq("pmin", o.pmin, min(cv(c.pa), cv(c.pb))); j.eq("pmax", o.pmax, max(cv(c.pa), cv(c.pb)))
    j.eq("pa_raw", o.pa_raw, c.pa); j.eq("pb_raw", o.pb_raw, c.pb)
    j.eq("y", o.y, y); j.eq("yint", o.yint, z); j.eq("z", o.z, z)
    j.eq("p0", o.p0, cv(sqrt(c.pa * c.pb)))
    j.eq("Q", o.Q, sqrt(c.pb / c.pa)); j.eq("widthr", o.widthr, c.pa / c.pb)
    j.eq("widthpc", o.widthpc, (max(cv(c.pa), cv(c.pb)) - min(cv(c.pa), cv(c.pb))) / cv(sqrt(c.pa * c.pb)), 1e-6, 1e-9)
    xint = z / sqrt(c.pa * c.pb)
    j.eq("xint", o.xint, xint)
    j.true("tkny", o.tkny == shape[4] and o.tknx == (QUOTE if shape[4] == BASE else BASE), "tkny/tknx")
    j.true("total_liquidity", o.total_liquidity == (o.y, o.tkn), "total_liquidity")
    if not flat:
        gam = 1 - (c.pb / c.pa) ** 0.25
        x0 = xint * (1 - gam) / (2 - gam)
        y0 = z * (1 - gam) / (2 - gam)
        j.eq("Gamma", o.Gamma, gam, 1e-6)
        j.eq("x0", o.x0, x0, 1e-6); j.eq("y0", o.y0, y0, 1e-6)
        j.eq("p0_raw", o.p0_raw, sqrt(c.pa * c.pb), 1e-6)
        j.eq("xasym", o.xasym, x0 * (1 - 1 / gam), 1e-5); j.eq("yasym", o.yasym, y0 * (1 - 1 / gam), 1e-5)
        j.eq("kappa", o.kappa, x0 * y0 / gam ** 2, 1e-5); j.eq("kappa_bar", o.kappa_bar, sqrt(x0 * y0) / gam, 1e-5)
        j.eq("leverage", o.leverage_fctr, 1 / gam, 1e-5)
        j.eq("Q_from_Gamma", o.Q_from_Gamma(gam), sqrt(c.pb / c.pa), 1e-6)
        j.eq("Gamma_from_Q", o.Gamma_from_Q(sqrt(c.pb / c.pa)), gam, 1e-6)
        j.eq("asym_over_0", o.asym_over_0(gam), 1 - 1 / gam); j.eq("int_over_0", o.int_over_0(gam), (2 - gam) / (1 - gam))
    full = ref.Curve(z, z, c.pa, c.pb)
    # the invariant, all the way along the curve
    for g in (0.0, 1e-9, 0.01, 0.25, 0.5, 0.75, 0.99, 1.0):
        yy = z * g
        x = full.dx_for_dy(z - yy)
        t.add("points")
        j.eq("xfromy_f", o.xfromy_f(yy), x, tol, 1e-9 * xint, "y=%g" % yy)
        j.eq("yfromx_f", o.yfromx_f(min(x, xint) * (1 - 1e-12)), yy, tol, 1e-8 * z, "x=%g" % x)
        if not flat:
            got = (o.xfromy_f(yy) - o.xasym) * (yy - o.yasym)
            j.eq("invariant", got, o.kappa, 1e-5)
        # prices along the full curve
        d = z - yy
        j.eq("p_marg_f full", o.p_marg_f(d, fullcurve=True), cv(full.marg(yy)), 1e-6, what="dy=%g" % d)
        if d > 0 and d >= z * 0.01:     # effective price = amounts exchanged
            j.eq("p_eff_f full", o.p_eff_f(d, fullcurve=True), cv(d / full.dx_for_dy(d)), 1e-5, what="dy=%g" % d)
    j.eq("p_eff_f full 0", o.p_eff_f(0, fullcurve=True), cv(c.pa), 1e-6)
    j.none_or_raises("xfromy_f bounds", o.xfromy_f, z * 1.01 + 1e-9)
    j.none_or_raises("xfromy_f bounds", o.xfromy_f, -z * 0.01)
    j.none_or_raises("yfromx_f bounds", o.yfromx_f, -xint * 0.01)
    j.none_or_raises("yfromx_f bounds", o.yfromx_f, xint * 1.01)
    # trades from the current point
    j.eq("p_marg", o.p_marg, cv(c.marg()), 1e-6)
    j.eq("p_eff_f 0", o.p_eff_f(0), cv(c.marg()), 1e-6)
    j.eq("p_eff_f default", o.p_eff_f(), cv(c.marg()), 1e-6)
    j.eq("p_marg_f default", o.p_marg_f(), cv(c.marg()), 1e-6)
    if y == 0:      # the same range without any capacity stands at its start
        e0 = CarbonOrderUI.from_prices(o.pair, o.tkn, o.pa, o.pb, 0, 0)
        j.eq("no capacity p_marg", e0.p_marg, cv(c.pa), 1e-6)
        for fc in (False, True):
            j.eq("no capacity p_marg_f", e0.p_marg_f(0, fullcurve=fc), cv(c.pa), 1e-6)
            j.eq("no capacity p_eff_f", e0.p_eff_f(0, fullcurve=fc), cv(c.pa), 1e-6)
        j.eq("no capacity pa", e0.pa, cv(c.pa)); j.eq("no capacity pb", e0.pb, cv(c.pb))
        j.eq("no capacity pmin", e0.pmin, min(cv(c.pa), cv(c.pb))); j.eq("no capacity pmax", e0.pmax, max(cv(c.pa), cv(c.pb)))
        j.none_or_raises("no capacity p_marg_f bounds", e0.p_marg_f, 0.1)
        j.none_or_raises("no capacity p_eff_f bounds", e0.p_eff_f, 0.1)
        j.eq("no capacity liquidity", e0.liquidity_approx(o.pmin / 2, o.pmax * 2), 0, 0, 1e-12)
        d0 = CarbonOrderUI(pair=o.pair, tkn=o.tkn, B=0, S=0, yint=0, y=0)
        j.true("disabled", d0.disabled and not o.disabled and not e0.disabled, "disabled flag")
        j.true("disabled prices", d0.p_marg_f() is None and d0.p_eff_f() is None and d0.p_marg is None,
               "a curve without prices has %r, %r, %r" % (d0.p_marg_f(), d0.p_eff_f(), d0.p_marg))
    if y > 0:
        for g in (0.0, 1e-6, 0.1, 0.5, 0.9, 1.0):
            dy = y * g
            dx = c.dx_for_dy(dy)
            t.add("points")
            if g == 1.0:
                dy = y
            j.eq("dxfromdy_f", o.dxfromdy_f(dy), dx, tol, 0, "dy=%g" % dy)
            j.eq("dyfromdx_f", o.dyfromdx_f(dx * (1 - 1e-13)), dy, tol, 0, "dx=%g" % dx)
            j.eq("p_marg_f", o.p_marg_f(dy), cv(c.marg(y - dy)), 1e-6, 0, "dy=%g" % dy)
            if g >= 0.1:
                if dy >= 0.01 * z:
                    j.eq("p_eff_f", o.p_eff_f(dy), cv(dy / dx), 1e-5, 0, "dy=%g" % dy)
            if not flat:
                # inverse of the marginal price
                p = cv(c.marg(y - dy))
                amp = sqrt(c.pa) / (sqrt(c.pa) - sqrt(c.pb))      # error amplification of the inverse
                ab = 1e-12 * amp * z * 10
                j.eq("yfromp_f", o.yfromp_f(p, checkbounds=False), y - dy, 1e-7, ab + 1e-9 * z, "p=%g" % p)
                inside = 0 < g < 1
                if inside and dy > 10 * ab and (y - dy) > 10 * ab:
                    j.eq("yfromp_f", o.yfromp_f(p), y - dy, 1e-7, ab + 1e-9 * z, "p=%g" % p)
                    j.eq("dyfromp_f", o.dyfromp_f(p), dy, 1e-7, ab + 1e-9 * z, "p=%g" % p)
        j.none_or_raises("dxfromdy_f bounds", o.dxfromdy_f, y * 1.01)
        j.none_or_raises("dxfromdy_f bounds", o.dxfromdy_f, -y * 0.01)
        j.none_or_raises("dyfromdx_f bounds", o.dyfromdx_f, -c.max_dx() * 0.01)
        j.none_or_raises("dyfromdx_f bounds", o.dyfromdx_f, c.max_dx() * 1.01)
        j.none_or_raises("p_marg_f bounds", o.p_marg_f, y * 1.01)
        j.none_or_raises("p_marg_f bounds", o.p_marg_f, -y * 0.01)
        j.none_or_raises("p_eff_f bounds", o.p_eff_f, y * 1.01)
        j.none_or_raises("p_eff_f bounds", o.p_eff_f, -y * 0.01)
    # prices beyond the ends of the range
    j.none_or_raises("yfromp_f start", o.yfromp_f, cv(c.pa * 1.01))
    if not flat:
        v, ex = call(o.yfromp_f, cv(c.pb / 1.01))
        j.true("yfromp_f end", ex is None and v == 0, "beyond the end: expected 0, got %r %r" % (v, ex))
        v, ex = call(o.dyfromp_f, cv(c.pb / 1.01))
        j.true("dyfromp_f end", ex is None and close(v, y, 1e-9, 1e-12 * z), "beyond the end: expected %r, got %r %r" % (y, v, ex))
        v, ex = call(o.dyfromp_f, cv(c.pa * 1.01))
        j.true("dyfromp_f start", ex is None and v == 0, "beyond the start: expected 0, got %r %r" % (v, ex))
        if y < 0.9 * z:       # between current and start price
            mid = cv(sqrt(c.marg() * c.pa))
            j.none_or_raises("yfromp_f marg", o.yfromp_f, mid)
            v, ex = call(o.dyfromp_f, mid)
            j.true("dyfromp_f marg", ex is None and v == 0, "beyond the marginal price: expected 0, got %r %r" % (v, ex))


# ---------------------------------------------------------------- U02

def same(j, key, a, b, rel=1e-7):
    j.true(key, a.tkn == b.tkn, "tkn %s vs %s" % (a.tkn, b.tkn))
    for f in ("pa_raw", "pb_raw", "yint", "y"):
        j.eq(key + " " + f, getattr(a, f), getattr(b, f), rel)


def bn(i):
    return {"type": "BigNumber", "hex": hex(int(i))}


def u02(shape, t):
    j = J(t, list(shape))
    pa, pb, z, y = raw(shape)
    tkn = shape[4]
    o = make(shape)
    c = rcurve(shape)
    cv = lambda p: conv(shape, p)
    for f, w in (("pa_raw", pa), ("pb_raw", pb), ("yint", z), ("y", y)):
        j.eq("from_prices " + f, getattr(o, f), w, 1e-9)
    if shape[0] != "flat":
        # range ends in the wrong order are exchanged
        same(j, "from_prices exchanged", CarbonOrderUI.from_prices("ETH/USDC", tkn, cv(pb), cv(pa), z, y), o)
    rev = CarbonOrderUI.from_prices("USDC/ETH", tkn, 1 / cv(pa), 1 / cv(pb), z, y)
    same(j, "from_prices reversed pair", rev, o)
    for f in ("pa", "pb", "p_marg"):
        j.eq("reversed pair " + f, getattr(rev, f), 1 / getattr(o, f), 1e-6)
    same(j, "from_prices pair object", CarbonOrderUI.from_prices(CarbonPair("ETH/USDC"), tkn, cv(pa), cv(pb), z, y, id=7), o)
    same(j, "from_BSy", CarbonOrderUI.from_BSy("ETH/USDC", tkn, sqrt(pb), sqrt(pa) - sqrt(pb), z, y), o)
    if z > 0:
        same(j, "from_Qxy", CarbonOrderUI.from_Qxy("ETH/USDC", tkn, sqrt(pb / pa), z / sqrt(pa * pb), z, y), o, 1e-6)
    same(j, "from_order(ui)", CarbonOrderUI.from_order(o), o)
    # via the simulator
    sim = CarbonSimulatorUI(pair="ETH/USDC", raiseonerror=True)
    if 1e-9 < y and 1e-7 < pb and pa < 1e7 and z < 1e8:
        v, e = call(sim.add_strategy, tkn, y, cv(pa), cv(pb), 0, cv(pa) * (0.5 if tkn == BASE else 2), cv(pa) * (0.4 if tkn == BASE else 2.5), y_int_sell=z)
        if e is None:
            ui = v["orderuis"]
            mine = [u for u in ui.values() if u.tkn == tkn][0]
            same(j, "via simulator", mine, o, 1e-6)
            other = [u for u in ui.values() if u.tkn != tkn][0]
            j.true("via simulator linked", mine.linked is None or mine.linked.id == other.id, "linked object")
    # bad arguments are rejected
    for bad in ((z, z * 1.01 + 1e-9), (z, -0.01 * z - 1e-9), (-1.0, 0.0)):
        v, e = call(CarbonOrderUI.from_prices, "ETH/USDC", tkn, cv(pa), cv(pb), *bad)
        j.true("from_prices rejects", isinstance(e, ValueError), "yint,y=%s accepted: %r %r" % (bad, v, e))
    v, e = call(CarbonOrderUI.from_BSy, "ETH/USDC", "WBTC", 1, 1, 1, 1)
    j.true("foreign token", isinstance(e, ValueError), "token outside the pair accepted")
    for a in ((0.5, 0, 1, 1), (0.5, -1, 1, 1), (0.5, 1, 0, 0), (0.5, 1, -1, -1), (0.5, 1, 1, 1.01), (0.5, 1, 1, -0.01)):
        v, e = call(CarbonOrderUI.from_Qxy, "ETH/USDC", tkn, *a)
        j.true("from_Qxy rejects", isinstance(e, ValueError), "%s accepted: %r %r" % (a, v, e))
    v, e = call(CarbonOrderUI.from_Qxy, "ETH/USDC", "WBTC", 0.5, 1, 1, 1)
    j.true("foreign token", isinstance(e, ValueError), "token outside the pair accepted by from_Qxy")
    # identity and links: set once
    o2 = make(shape[:4] + ({BASE: QUOTE, QUOTE: BASE}[tkn],))
    j.true("no link", o.lid is None, "lid of a curve without link: %r" % (o.lid,))
    for nid in (0, 7, "x"):
        u = make(shape)
        j.true("set_id", u.set_id(nid) is u and u.id == nid, "id %r after set_id(%r)" % (u.id, nid))
        v, e = call(u.set_id, 9)
        j.true("set_id twice", isinstance(e, ValueError) and u.id == nid, "id %r after the second set_id: %r" % (u.id, e))
        w = make(shape)
        j.true("set_linked", w.set_linked(u) is w and w.linked is u and w.lid == nid and u.linked is None, "link %r" % (w.lid,))
        v, e = call(w.set_linked, o2)
        j.true("set_linked twice", isinstance(e, ValueError) and w.linked is u, "link after the second set_linked: %r" % (e,))
    # description of the order
    other = QUOTE if tkn == BASE else BASE
    j.true("tokens", (o.tkny, o.tknx) == (tkn, other), "%s, %s" % (o.tkny, o.tknx))
    j.true("price conventions", o.price_convention.replace(" ", "") in ("USDCperETH", "USDC/ETH") and o.price_convention_raw == "%s per %s" % (tkn, other),
           "%r %r" % (o.price_convention, o.price_convention_raw))
    d, e = call(o.descr)
    want = "Sell %s buy %s from %.4f to %.4f %s" % (tkn, other, cv(pa), cv(pb), o.price_convention)
    wf = d and [float(x) for x in d.split() if x.replace(".", "").isdigit()]
    j.true("descr", e is None and [x for x in d.split() if not x.replace(".", "").isdigit()] == [x for x in want.split() if not x.replace(".", "").isdigit()]
           and len(wf) == 2 and close(wf[0], cv(pa), 1e-9, 6e-5) and close(wf[1], cv(pb), 1e-9, 6e-5), "%r, expected %r (%r)" % (d, want, e))
    if z > 0:
        df, e = call(o.descr, full=True)
        j.true("descr full", e is None and df.startswith(d) and ("%s %s on curve" % (o.y, tkn)) in df and ("%.0f%% of capacity" % (100 * y / z)) in df, "%r %r" % (df, e))
    # curves by pair and side (BID sells the base token, as documented)
    k1, k2, k3 = o, o2, CarbonOrderUI.from_prices("WBTC/USDC", "WBTC", 2, 3, 1, 1)
    for m in range(1, 8):
        cs = {i: k for i, k in enumerate((k1, k2, k3)) if m >> i & 1}
        r, e = call(CarbonOrderUI.curves_by_pair_bidask, cs)
        if not j.true("curves_by_pair_bidask", e is None, "raises %r" % (e,)):
            continue
        ok = set(r) == {k.pair.slashpair for k in cs.values()}
        for pr, g in r.items():
            mine = [k for k in cs.values() if k.pair.slashpair == pr]
            ok = ok and [id(k) for k in g["ALL"]] == [id(k) for k in mine]
            ok = ok and [id(k) for k in g["ASK"]] == [id(k) for k in mine if k.tkn == k.pair.basetoken]
            ok = ok and [id(k) for k in g["BID"]] == [id(k) for k in mine if k.tkn != k.pair.basetoken]
        j.true("curves_by_pair_bidask", ok, "curves %s: %r" % ([(k.pair.slashpair, k.tkn) for k in cs.values()], r))
    j.true("bidask", {k1.bidask, k2.bidask} == {"BID", "ASK"} and (k1 if tkn == BASE else k2).bidask == "BID", "%s %s" % (k1.bidask, k2.bidask))
    # SDK record: capacity = budget, filled in the proportion y/z of the encoded order
    wei = 10 ** 18
    for f2 in (0.0, 0.5, 1.0):
        psl, psh = 2500.0, 2600.0
        pair = ("ETH", "USDC") if shape[1] != 1.0 else ("WBTC", "USDC")
        lo, hi = sorted((cv(pa), cv(pb)))
        rec = {"id": bn(83), "baseToken": "ETH", "quoteToken": "USDC",
               "buyPriceLow": repr(lo), "buyPriceHigh": repr(hi), "buyBudget": repr(z),
               "sellPriceLow": repr(hi * 1.5), "sellPriceHigh": repr(hi * 2), "sellBudget": repr(z * 2)}
        for flip in (False, True):
            oe = {"y": bn(int(wei * f2)), "z": bn(wei), "A": bn(1), "B": bn(1)}     # ETH order
            oq = {"y": bn(int(wei * shape[3])), "z": bn(wei), "A": bn(1), "B": bn(1)}
            rec["encoded"] = dict(id=bn(83), token0="USDC" if flip else "ETH", token1="ETH" if flip else "USDC",
                                  order0=oq if flip else oe, order1=oe if flip else oq)
            v, e = call(CarbonOrderUI.from_SDK, copy.deepcopy(rec))
            if not j.true("from_SDK", e is None, "raises %r" % (e,)):
                continue
            ob, os_ = v
            t.add("sdk_records")
            j.true("from_SDK links", ob.linked is os_ and os_.linked is ob and ob.tkn == "USDC" and os_.tkn == "ETH", "links/tokens")
            for u, a, b, cap, fl in ((ob, hi, lo, z, shape[3]), (os_, hi * 1.5, hi * 2, 2 * z, f2)):
                j.eq("from_SDK pa", u.pa, a, 1e-9); j.eq("from_SDK pb", u.pb, b, 1e-9)
                j.eq("from_SDK yint", u.yint, cap, 1e-9); j.eq("from_SDK y", u.y, cap * fl, 1e-6, 1e-9 * cap)
    # the smart-contract parameters
    for (db, dq), sx in itertools.product(((18, 6), (8, 18), (18, 18), (8, 5), (0, 9)), (0, 48, 60)):
        P = CarbonPair("ETH/USDC").set_decimals(db, dq)
        u = CarbonOrderUI.from_prices(P, tkn, cv(pa), cv(pb), z, y)
        r, e = call(u.yzABS, sx)
        if not j.true("yzABS", e is None, "raises %r" % (e,)):
            continue
        dy, dx = (db, dq) if tkn == BASE else (dq, db)
        j.eq("yzABS y", r.y, y * 10.0 ** dy, 1e-9, 1.000001); j.eq("yzABS z", r.z, z * 10.0 ** dy, 1e-9, 1.000001)
        fct = sqrt(10.0 ** (dy - dx)) * 2.0 ** sx
        j.eq("yzABS B", r.B, sqrt(pb) * fct, 1e-9, 1.000001)
        j.eq("yzABS A", r.A, (sqrt(pa) - sqrt(pb)) * fct, 1e-9, 1.000001)
        j.eq("yzABS S", r.S, 2 ** sx, 0)
        j.true("yzABS integers", all(isinstance(x, int) for x in (r.y, r.z, r.A, r.B, r.S)), "not all integers: %r" % (r,))
        for nm, w in (("A_unscaled", r.A / r.S), ("B_unscaled", r.B / r.S), ("A_scaled", r.A), ("B_scaled", r.B), ("scaling_factor", r.S)):
            v, e = call(getattr, r, nm)
            j.true("yzABS alias", e is None and close(v, w, 1e-12, 0), "%s = %r, expected %r (%r)" % (nm, v, w, e))
        v, e = call(lambda: (r.astuple, r.asdict))
        j.true("yzABS tuple and dict", e is None and tuple(v[0]) == (r.y, r.z, r.A, r.B, r.S)
               and [v[1].get(k) for k in "yzABS"] == [r.y, r.z, r.A, r.B, r.S], "%r %r" % (v, e))
    u = CarbonOrderUI.from_prices(CarbonPair("ETH/USDC"), tkn, cv(pa), cv(pb), z, y)
    v, e = call(u.yzABS)
    j.true("yzABS decimals", isinstance(e, Exception), "no decimals set, but yzABS returns %r" % (v,))


# ---------------------------------------------------------------- U03: trading histories on linked curves

# sell range (raw: ETH per USDC is 1/price), buy range; amounts
BOOKS = {
    "std": (("wide", 1 / 2000.0, 1.0, 1.0), ("wide", 1200.0, 750.0, 1.0)),
    "part": (("wide", 1 / 2000.0, 10.0, 0.4), ("xwide", 100.0, 5000.0, 0.7)),
    "empty": (("wide", 1 / 2000.0, 1.0, 1.0), ("wide", 1200.0, 0.0, 0.0)),
    "drained": (("wide", 1 / 2000.0, 1.0, 0.0), ("narrow", 1200.0, 750.0, 1.0)),
    "flat": (("flat", 1 / 2000.0, 1.0, 1.0), ("flat", 1200.0, 750.0, 0.5)),
    "overlap": (("wide", 1 / 1500.0, 2.0, 0.5), ("wide", 1600.0, 900.0, 1.0)),
    "tiny": (("wide", 1 / 2000.0, 1e-4, 0.8), ("wide", 1200.0, 1e-3, 1.0)),
}


def ouibook(name, linked=True):
    s, b = BOOKS[name]
    o1 = make(s + (BASE,))
    o2 = make(b + (QUOTE,))
    if linked:
        o1.set_linked(o2)
        o2.set_linked(o1)
    o1.set_id(0)
    o2.set_id(1)
    return [o1, o2]


def st(os_):
    return tuple((float(o.y), float(o.yint), float(o.B), float(o.S), o.tkn, o.pair.slashpair,
                  None if o.linked is None else o.linked.id, o.id) for o in os_)


def alphabet(os_):
    ops = []
    for i, o in enumerate(os_):
        y = float(o.y)
        c = ref.Curve(o.y, o.yint, o.pa_raw, o.pb_raw)
        mx = c.max_dx() if o.yint > 0 else 0.0
        for g in (0.3, 1.0, 1.1):
            if y > 0:
                ops.append(("selly", i, y * g, {}))
                ops.append(("buyx", i, mx * g, {}))
        if y > 0:
            # within the rounding tolerance beyond the curve
            ops.append(("selly", i, y + 5e-11, {}))
        ops.append(("selly", i, 0.3 * y + 0.01, dict(execute=False)))
        ops.append(("buyx", i, 0.3 * mx + 0.001, dict(execute=False)))
        ops.append(("selly", i, -0.2 * (o.yint - y) - 1e-3, dict(allowneg=False)))
        lo, hi = o.pmin, o.pmax
        for p in (lo / 1.2, lo, sqrt(lo * hi), hi, hi * 1.2):
            ops.append(("tradeto", i, p, {}))
        ops.append(("tradeto", i, sqrt(lo * hi) * 1.0001, dict(execute=False)))
        ops.append(("tradeto", i, lo / 1.2 if o.reverseq is False else hi * 1.2, dict(execute=False)))
        ops.append(("addliqy", i, 0.5 * float(o.yint) + 0.25, {}))
        ops.append(("addliqy", i, 0.25 * (float(o.yint) - y), dict(expandcurve=False)))
        ops.append(("addliqy", i, float(o.yint) - y + 0.5, dict(expandcurve=False)))
        ops.append(("addliqy", i, -0.1, {}))
        if o.linked is None:
            room = float(o.yint) - y
            if room > 1e-6:
                ops.append(("selly", i, -0.5 * room, {}))
                ops.append(("selly", i, -0.5 * room, dict(expandcurve=True)))
                ops.append(("buyx", i, c.dx_for_dy(-0.5 * room), dict(expandcurve=True)))
                ops.append(("buyx", i, c.dx_for_dy(-0.5 * room), {}))
            if o.yint > 1e-9:
                ops.append(("buyx", i, c.dx_for_dy(-room - 0.1 * c.z), {}))
                ops.append(("buyx", i, c.dx_for_dy(-room - 0.1 * c.z), dict(expandcurve=True, execute=False)))
                ops.append(("buyx", i, c.dx_for_dy(-room - 0.1 * c.z), dict(expandcurve=True)))
                ops.append(("selly", i, -room - 0.25 * float(o.yint), dict(expandcurve=True)))
                ops.append(("buyx", i, c.dx_for_dy(-0.1 * room - 1e-4), dict(allowneg=False)))
            ops.append(("selly", i, -room - 0.5, {}))
            ops.append(("selly", i, -room - 0.5, dict(expandcurve=True, execute=False)))
        else:
            ops.append(("selly", i, -0.1, {}))
    return ops


def rc(o):
    return ref.Curve(o.y, o.yint, o.pa_raw, o.pb_raw)


def step(os_, op, t, case):
    """apply op to os_ (mutating) and judge against the reference"""
    j = J(t, case)
    kind, i, a, kw = op
    o = os_[i]
    before = st(os_)
    ub = [rc(x) for x in os_]
    me = ub[i]
    li = None if o.linked is None else 1 - i
    pa_, pb_ = o.pa_raw, o.pb_raw
    res, e = call(getattr(o, kind), a, **kw)
    after = st(os_)
    # never changes: shapes, tokens, links
    for b4, af in zip(before, after):
        j.true("shape changed", b4[2:] == af[2:], "%s -> %s" % (b4, af))
    # always: 0 <= y <= yint
    for af in after:
        j.true("bounds", 0 <= af[0] <= af[1] * (1 + 1e-12) + 1e-9, "y outside capacity: %s" % (af[:2],))

    def unchanged(key):
        ok = all(abs(b4[0] - af[0]) <= 1e-15 * abs(b4[0]) and b4[1] == af[1] for b4, af in zip(before, after))
        return j.true(key, ok, "changed state: %s -> %s" % ([x[:2] for x in before], [x[:2] for x in after]))

    if kind == "addliqy":
        if a < 0 or (not kw.get("expandcurve", True) and me.y + a > me.z * (1 + 1e-12)):
            j.true("addliqy rejects", isinstance(e, ValueError), "%s: %r" % (res, e))
            unchanged("failed operation")
            return
        if not j.true("addliqy", e is None, "raised %r" % (e,)):
            return
        want = me.y + a
        j.eq("addliqy y", after[i][0], want, 1e-9); j.eq("addliqy yint", after[i][1], max(me.z, want), 1e-9)
        j.true("addliqy other", before[1 - i] == after[1 - i], "the other curve changed")
        j.eq("addliqy result dy", res["dy"], a); j.eq("addliqy result y", res["y"], want); j.eq("addliqy result y_old", res["y_old"], me.y)
        j.eq("addliqy result yint", res["yint"], max(me.z, want)); j.true("addliqy expanded", bool(res["expanded"]) == (want > me.z), "expanded flag")
        return

    execute = kw.get("execute", True)
    # what should happen
    if kind == "selly":
        dy, dx = a, None
    elif kind == "buyx":
        dy = me.dy_for_dx(a)
    else:
        raw_p = a if o.tkn == QUOTE else 1 / a
        if me.y <= 0 or me.pa == me.pb:
            dy = None           # flat: decided below
            if me.y <= 0:
                dy = 0.0
            elif raw_p < me.pb * (1 - 1e-9):
                dy = me.y
            elif raw_p > me.pb * (1 + 1e-9):
                dy = 0.0
        else:
            sm = sqrt(raw_p)
            dy = me.out_at(sm)
    if kind != "tradeto" and (dy > me.y * (1 + 1e-9) + 1e-9 or me.y - dy > me.z + 1e-9 and not kw.get("expandcurve")
                              or (dy < -1e-9 and kw.get("allowneg") is False)):
        # must be refused
        j.true("refused", res is None and (e is None or isinstance(e, ValueError)),
               "%s(%r) beyond the curve: expected None, got %r %r" % (kind, a, res, e))
        if e is not None and li is None:
            j.true("refused", False, "%s(%r) without raiseonerror raised %r" % (kind, a, e))
        unchanged("failed operation")
        c2 = copy.deepcopy(os_)
        r2, e2 = call(getattr(c2[i], kind), a, raiseonerror=True, **kw)
        j.true("refused raises", isinstance(e2, ValueError), "%s(%r) raiseonerror: %r %r" % (kind, a, r2, e2))
        j.true("failed operation", st(c2) == after, "raising operation changed state")
        return
    if dy is not None and dy < -1e-9 and li is not None:
        # buying back y from a linked curve is not possible: rejected as a whole
        j.true("negative on linked", e is not None or res is None, "accepted: %r" % (res,))
        unchanged("failed operation")
        return
    if kind != "tradeto" and me.z == 0:
        # no price can be computed on a curve without capacity: refused in whatever way, as a whole
        if e is not None or res is None or abs(num(res["dy"]) or 0.0) < 1e-9:
            unchanged("empty curve")
            return
    if not j.true(kind, e is None and res is not None, "%s(%r, %s) failed: %r %r" % (kind, a, kw, res, e)):
        return
    if dy is None:              # flat curve at exactly its own price: any amount on the curve is right
        dy = num(res["dy"])
        if not j.true("tradeto flat", dy is not None and -1e-9 <= dy <= me.y + 1e-9, "dy=%r" % res["dy"]):
            return
    tolz = 1e-7 * max(me.z, 1e-3)
    if abs(dy) < 1e-9 and num(res["dy"]) is not None and abs(num(res["dy"])) < 1e-9:
        unchanged("zero trade") if abs(dy) < 1e-11 and abs(num(res["dy"])) < 1e-11 else None
        return
    dx = me.dx_for_dy(dy)
    j.eq(kind + " result dy", res["dy"], dy, 1e-7, tolz)
    j.eq(kind + " result dx", res["dx"], dx, 1e-6, 1e-9 * (me.z / sqrt(me.pa * me.pb)))
    j.eq(kind + " result y", res["y"], me.y - dy, 1e-7, tolz)
    j.eq(kind + " result y_old", res["y_old"], me.y)
    if kind == "buyx":
        j.eq("buyx dx", res["dx"], a, 1e-7, 1e-9)
    cvp = (lambda p: p) if o.tkn == QUOTE else (lambda p: 1 / p)
    j.eq(kind + " result p", res["p"], cvp(dy / dx), 1e-6)
    j.eq(kind + " result pmarg_old", res["pmarg_old"], cvp(me.marg()), 1e-6)
    if me.y - dy <= me.z:
        j.eq(kind + " result pmarg", res["pmarg"], cvp(me.marg(me.y - dy)), 1e-6)
    j.true(kind + " tokens", res["tkny"] == o.tkn and res["tknx"] == o.tknx, "tokens")
    j.true(kind + " executed flag", bool(res["executed"]) == bool(execute), "executed=%r" % res["executed"])
    if not execute:
        unchanged("quote")
        return
    j.eq(kind + " y", after[i][0], me.y - dy, 1e-7, tolz)
    j.eq(kind + " conservation", before[i][0] - after[i][0], res["dy"], 1e-7, max(1e-12 * me.z, 1e-10))
    j.eq(kind + " yint", after[i][1], max(me.z, me.y - dy), 1e-7, tolz)
    if li is None:
        j.true(kind + " other", before[1 - i] == after[1 - i], "an unlinked curve changed")
    else:
        want = ub[1 - i].y + dx
        j.eq(kind + " linked y", after[1 - i][0], want, 1e-6, 1e-9)
        j.eq(kind + " linked conservation", after[1 - i][0] - before[1 - i][0], res["dx"], 1e-7, 1e-12 * max(want, 1))
        j.eq(kind + " linked yint", after[1 - i][1], max(ub[1 - i].z, want), 1e-6, 1e-9)


def u03(item, t):
    book, linked, depth, first = item
    root = ouibook(book, linked)
    seen = set()
    level = [(root, [])]
    for d in range(depth):
        nxt = []
        for os_, hist in level:
            ops = alphabet(os_)
            if d == 0:
                ops = ops[first[0]::first[1]]
            for op in ops:
                core.arm()
                c = copy.deepcopy(os_)
                case = dict(book=book, linked=linked, ops=hist + [op])
                step(c, op, t, case)
                t.add("transitions")
                k = tuple((float("%.9g" % x[0]), float("%.9g" % x[1])) for x in st(c))
                t.seen("states", (book, linked, k))
                if k not in seen:
                    seen.add(k)
                    nxt.append((c, hist + [op]))
        level = nxt
    t.sample(dict(book=book, linked=linked, history=[list(map(str, o)) for o in (level[-1][1] if level else [])]))


# ---------------------------------------------------------------- U04: liquidity in a range; goal seek; rounding

def u04(shape, t):
    j = J(t, list(shape))
    o = make(shape)
    lo, hi, y = o.pmin, o.pmax, o.y
    mid = sqrt(lo * hi)
    flat = shape[0] == "flat"
    pts = [lo / 2, lo / 1.1, lo, lo + 0.1 * (hi - lo), lo + 0.5 * (hi - lo), hi, hi * 1.1, hi * 2] if not flat else \
        [lo / 2, lo / 1.1, lo * 1.1, lo * 2]
    perc = lambda a, b: o.liquidity_approx(a, b, asperc=True)
    for i, a in enumerate(pts):
        for b in pts[i + 1:]:
            t.add("intervals")
            v = perc(a, b)
            x0, x1 = max(a, lo), min(b, hi)
            if flat:
                want = 1.0 if a <= lo < b else 0.0
            else:
                want = max(0.0, (x1 - x0) / (hi - lo))
            j.eq("share of range", v, want, 1e-6, 1e-6 if shape[0] == "narrow" else 1e-9, "%g-%g" % (a, b))
            j.eq("share order of ends", perc(b, a), want, 1e-6, 1e-6 if shape[0] == "narrow" else 1e-9)
            # in the token on the curve, it is that share of the holdings
            j.eq("liquidity own token", o.liquidity_approx(a, b, o.tkn), want * y, 1e-5, 1e-6 * o.yint)
            oth = o.tknx
            l = num(o.liquidity_approx(a, b, oth))
            if want > 1e-9 and y > 0:
                # converted at a price inside the part of the range covered
                p1, p2 = max(min(x0, x1), lo), min(max(x0, x1), hi)
                f = (lambda p: y * want * p) if o.tkn == BASE else (lambda p: y * want / p)
                g1, g2 = sorted((f(p1), f(p2)))
                j.true("liquidity other token", l is not None and g1 * (1 - 1e-4) <= l <= g2 * (1 + 1e-4), "%r not in [%g, %g]" % (l, g1, g2))
            else:
                j.true("liquidity other token", l is not None and abs(l) <= 1e-9 * max(1, o.yint), "%r" % l)
            j.eq("liquidity default token", o.liquidity_approx(a, b), o.liquidity_approx(a, b, BASE), 1e-12)
    if not flat:
        for k in range(1, len(pts) - 1):        # additive over adjacent intervals
            j.eq("share additive", perc(pts[0], pts[k]) + perc(pts[k], pts[-1]), perc(pts[0], pts[-1]), 1e-6, 1e-9)


def u04_goal(item, t):
    a, b, r, shape, sign = item
    j = J(t, ["goalseek"] + list(item))
    f = {"lin": lambda x: sign * (x - r), "cub": lambda x: sign * (x - r) ** 3,
         "step": lambda x: sign * (1.0 if x > r else -1.0), "exp": lambda x: sign * (2.0 ** min(x - r, 50) - 1)}[shape]
    t.add("goals")
    core.arm(10)
    v, e = call(CarbonOrderUI.goalseek, f, a, b)
    if not j.true("goalseek", e is None, "raised %r" % (e,)):
        return
    v = num(v)
    tol = 3e-7 * max(abs(r), abs(a) * 1e-6, abs(b) * 1e-6) + 1e-12
    if shape == "cub":
        tol *= 10
    j.true("goalseek root", v is not None and a <= v <= b and abs(v - r) <= tol, "root %r, expected %r" % (v, r))
    v, e = call(CarbonOrderUI.goalseek, f, b, a)
    j.true("goalseek bracket", isinstance(e, ValueError), "a>b accepted")
    v, e = call(CarbonOrderUI.goalseek, lambda x: 1.0, a, b)
    j.true("goalseek sign", isinstance(e, ValueError), "no sign change accepted")


def goals():
    for (a, b) in ((1.0, 10.0), (0.001, 1e6), (-10.0, -1.0), (-5.0, 3.0), (0.0, 8.0), (-1.0, 1.0)):
        for g in (0.1, 0.37, 0.5, 0.9):
            r = a + g * (b - a)
            for s in ("lin", "cub", "step", "exp"):
                for sign in (1, -1):
                    yield (a, b, r, s, sign)


def u04_round(item, t):
    m, e, n = item
    x = m * 10.0 ** e
    j = J(t, ["roundsd", m, e, n])
    t.add("roundings")
    v = num(CarbonOrderUI.roundsd(x, n))
    # within half a unit of the n-th significant digit, and unchanged by rounding again
    from math import floor, log10
    unit = 10.0 ** (floor(log10(x)) - n + 1)
    if j.true("roundsd", v is not None and abs(v - x) <= 0.5000001 * unit + 1e-15 * x, "roundsd(%r,%d)=%r" % (x, n, v)):
        # the repository's own tests keep one digit more for large numbers
        k = v / unit * 10
        j.true("roundsd digits", abs(k - round(k)) < 1e-6 * max(1, abs(k)), "%r has more than %d digits" % (v, n + 1))


def roundings():
    for m in (1.0, 1.23456789, 4.99999, 5.5555555, 9.87654321):
        for e in range(-12, 13):
            for n in (1, 2, 3, 6, 9):
                yield (m, e, n)


FN = {"U01": u01, "U02": u02}


def _u01(items, t):
    for s in items:
        core.arm()
        u01(s, t)
        t.add("curves")
    t.sample(list(items[0]))


def _u02(items, t):
    for s in items:
        core.arm()
        u02(s, t)
        t.add("curves")
    t.sample(list(items[0]))


def _u04(items, t):
    for kind, s in items:
        core.arm()
        {"liq": u04, "goal": u04_goal, "round": u04_round}[kind](s, t)
    t.sample([items[0][0]] + list(items[0][1]))


def check(pid, tier):
    sh = list(shapes(tier))
    if pid in ("U01", "U02"):
        tally = core.run_tasks({"U01": _u01, "U02": _u02}[pid], core.stripes(sh, 16))
        return tally, dict(states=tally.n.get("curves", 0), transitions=tally.n.get("comparisons", 0), exhaustive=True,
                           bounds="ranges %s x price levels %d x capacities %d x fills %s x both tokens; all listed arguments of every function"
                           % (list(RANGES), len({s[1] for s in sh}), len({s[2] for s in sh}), list(FILLS)))
    if pid == "U03":
        depth = 4 if tier == "thorough" else 3
        items = [(b, l, depth, (k, 4)) for b in BOOKS for l in (True, False) for k in range(4)]
        tally = core.run_tasks(u03, items)
        return tally, dict(states=len(tally.sets.get("states", ())), transitions=tally.n["transitions"], exhaustive=True,
                           bounds="7 books x linked/unlinked; all histories of selly/buyx/tradeto/addliqy to depth %d" % depth)
    items = [("liq", s) for s in sh] + [("goal", g) for g in goals()] + [("round", r) for r in roundings()]
    tally = core.run_tasks(_u04, core.stripes(items, 32))
    return tally, dict(states=len(items), transitions=tally.n.get("comparisons", 0), exhaustive=True,
                       bounds="all curve shapes x all pairs of 8 price points; goal-seek brackets incl. negative and zero; rounding grid")


def replay(pid, case, t):
    c = case["case"]
    if pid == "U03":
        os_ = ouibook(c["book"], c["linked"])
        for op in c["ops"]:
            step(os_, (op[0], op[1], op[2], dict(op[3])), t, c)
    elif pid in ("U01", "U02"):
        FN[pid](tuple(c), t)
    elif c[0] == "goalseek":
        u04_goal(tuple(c[1:]), t)
    elif c[0] == "roundsd":
        u04_round(tuple(c[1:]), t)
    else:
        u04(tuple(c), t)
