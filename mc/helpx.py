"""Helpers: strategies (H01), strategy simulation over price paths (H02), parameters (H03), shared variables (H04),
number encodings (H05), paths and data files (H06), price data client (H07), widget managers (H08)."""
import copy
import itertools
import math
import os
import pickle
import shutil
import tempfile
from math import sqrt

import numpy as np
import pandas as pd

from mc import core, ref
from mc.core import call
from mc.oui import J

from carbon.helpers.strategym import strategy
from carbon.tools.params import Params

E = lambda a, b, rel=1e-9: a is not None and b is not None and abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


def same(a, b, rel=1e-12):
    if a is None or b is None:
        return a is b
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


# ---------------------------------------------------------------- H01

SF = ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "amt_rsk", "amt_csh", "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy",
      "rsk", "csh", "rescale", "rescaled_fctr")
DEF = dict(amt_rsk=None, amt_csh=None, psell_marginal=None, pbuy_marginal=None, y_int_sell=None, y_int_buy=None, rsk="RSK", csh="CSH",
           rescale=True, rescaled_fctr=None)


def fields(s):
    return {f: getattr(s, f) for f in SF}


def expect(j, tag, s, rel=1e-12, **want):
    w = dict(DEF, **want)
    for f in SF:
        g = getattr(s, f)
        ok = g == w[f] if isinstance(w[f], (str, bool)) or w[f] is None else isinstance(g, (int, float)) and same(g, w[f], rel)
        j.true(tag + " " + f, ok, "%r, expected %r" % (g, w[f]))


def h01_items(th):
    ms = (1e-6, 1, 100, 2000, 3e9) if th else (1e-6, 100, 3e9)
    gs = (0, 0.01, 0.5, 2)
    ws = (0, 0.001, 0.5, 1, 3, (0, 0.2), (0.1, 0.7), (2, 0.5), [0.3, 0])
    us = (0, None, 0.01, 0.5, 0.999, 0.9995, 1, (0, 0.3), (0.2, 0), (0.9, 1), [0.1, 0.2], (0.8, 0.3), (0.999, 0.4), (1, 0.01))
    for m in ms:
        for g in gs:
            for w in ws:
                for u in us:
                    yield ("mgw", m, g, w, u)
    for bad in (dict(u=-0.1), dict(u=1.1), dict(u=(0.5, 1.1)), dict(u=(-0.1, 0.5)), dict(w=-0.1), dict(w=(0.1, -0.5)), dict(w=(-0.5, 0.1)), dict(u=(0.1, 0.2, 0.3))):
        yield ("bad", bad)
    for a in (None, 0, 5.5):
        for c in (None, 0, 700):
            for pm in (None, "p"):
                for yi in (None, "y"):
                    yield ("ctor", a, c, pm, yi)
    for new in (1, 50, 100, 2345.6):
        for old in (1, 100, 333):
            for rs in (True, False):
                for force in (True, False):
                    for pm in (None, "p", "y", "ps", "pb", "ys", "yb"):
                        yield ("rescale", new, old, rs, force, pm)
    for spot in (0.001, 1, 100, 2500):
        for pc in (0, 0.3, 0.5, 1):
            for tvl in (1, 1000):
                for a in (None, 0, 3):
                    for c in (None, 0, 7):
                        yield ("tvl", spot, pc, tvl, a, c)
    P = (70, 80, 90, 100)
    for s in list(itertools.product(P, P)) + [70, 100]:
        for b in list(itertools.product(P, P)) + [70, 100]:
            yield ("sb", s, b)
    for lo in (0.001, 80, 100):
        for hi in (0.001, 100, 120, 5000):
            for below in (True, False):
                for tvl in (None, 1, 5000):
                    for fee in (None, 0, 0.003, 0.05):
                        yield ("u3", lo, hi, below, tvl, fee)
    for k in range(32, 40 + 128):
        yield ("dct", k)
    yield ("dr",)
    yield ("sim",)


def v01(w):
    return w if w else 0.0001


def h01(item, t):
    kind = item[0]
    j = J(t, list(item))
    t.seen("states", repr(item))
    if kind == "mgw":
        _, m, g, w, u = item
        for amt in ((None, None), (3.5, 100.0)):
            for nm in ((None, None), ("ETH", "USDC")):
                s, e = call(strategy.from_mgw, m=m, g=g, w=w, u=u, amt_rsk=amt[0], amt_csh=amt[1], rsk=nm[0], csh=nm[1])
                if not j.true("from_mgw", e is None, "raised %r" % (e,)):
                    return
                w2 = tuple(w) if isinstance(w, (tuple, list)) else (w, w)
                u2 = tuple(u) if isinstance(u, (tuple, list)) else (u, u)
                g2 = 1 + (g or 0.0001) / 2
                sa, sb = m * g2, m * g2 * (1 + v01(w2[0]))
                ba, bb = m / g2, m / g2 / (1 + v01(w2[1]))
                us, ub = (min(x, 0.999) if x else None for x in u2)
                expect(j, "mgw", s, p_sell_a=sa, p_sell_b=sb, p_buy_a=ba, p_buy_b=bb, amt_rsk=amt[0], amt_csh=amt[1],
                       psell_marginal=(1 - us) * sa + us * sb if us else None, pbuy_marginal=(1 - ub) * ba + ub * bb if ub else None,
                       rsk=nm[0] or "RSK", csh=nm[1] or "CSH")
                j.true("slashpair", s.slashpair == "%s/%s" % (nm[0] or "RSK", nm[1] or "CSH"), "%r" % s.slashpair)
                dct_ok(j, s)
    elif kind == "bad":
        s, e = call(strategy.from_mgw, **item[1])
        j.true("invalid mgw", isinstance(e, (ValueError, TypeError)), "%r %r" % (s, e))
    elif kind == "ctor":
        _, a, c, pm, yi = item
        kw = dict(amt_rsk=a, amt_csh=c)
        k2 = {}
        if pm:
            k2["psell_marginal"] = 115.0
        if yi:
            k2["y_int_buy"] = 1000.0
        s, e = call(strategy, 110, 120, 90, 80, **kw, **k2)
        if pm and yi:
            j.true("marginal price and intercept", isinstance(e, ValueError), "%r %r" % (s, e))
            return
        if j.true("constructor", e is None, "raised %r" % (e,)):
            expect(j, "constructor", s, p_sell_a=110, p_sell_b=120, p_buy_a=90, p_buy_b=80, amt_rsk=1e-10 if a == 0 else a, amt_csh=1e-10 if c == 0 else c, **k2)
            dct_ok(j, s)
    elif kind == "rescale":
        _, new, old, rs, force, pm = item
        pm = {None: "", "p": "pspb", "y": "ysyb"}.get(pm, pm)
        kw = {}
        if "ps" in pm:
            kw["psell_marginal"] = 112.0
        if "pb" in pm:
            kw["pbuy_marginal"] = 88.0
        if "yb" in pm:
            kw["y_int_buy"] = 5000.0
        if "ys" in pm:
            kw["y_int_sell"] = 70.0
        s = strategy(110, 120, 90, 80, amt_rsk=3.0, amt_csh=400.0, rsk="A", csh="B", rescale=rs, **kw)
        before = fields(s)
        r, e = call(s.rescale_strat, new, old, force=force)
        if not j.true("rescale", e is None and r is not s, "%r %r" % (r, e)):
            return
        j.true("rescale leaves the original", fields(s) == before, "%r" % fields(s))
        f = new / old
        if not rs and not force:
            j.true("not rescaled", fields(r) == before, "%r" % fields(r))
            return
        expect(j, "rescale", r, p_sell_a=110 * f, p_sell_b=120 * f, p_buy_a=90 * f, p_buy_b=80 * f, amt_rsk=3.0, amt_csh=400.0,
               psell_marginal=112.0 * f if "ps" in pm else None, pbuy_marginal=88.0 * f if "pb" in pm else None,
               y_int_sell=70.0 if "ys" in pm else None, y_int_buy=5000.0 * f if "yb" in pm else None, rsk="A", csh="B", rescale=False, rescaled_fctr=f)
        r2 = r.rescale_strat(new * 3, old)
        j.true("rescaled once", fields(r2) == fields(r), "%r" % fields(r2))
    elif kind == "tvl":
        _, spot, pc, tvl, a, c = item
        s = strategy(110, 120, 90, 80, amt_rsk=a, amt_csh=c)
        before = fields(s)
        n = s.set_tvl(spot, pc, tvl)
        j.true("set_tvl leaves the original", fields(s) == before and n is not s, "")
        if a is None and c is None:
            w = dict(before, amt_rsk=tvl / spot * (1 - pc), amt_csh=tvl * pc)
            j.true("set_tvl", all(same(getattr(n, f), w[f]) if f[:3] == "amt" else getattr(n, f) == w[f] for f in SF), "%r" % fields(n))
            j.true("value", same(n.amt_rsk * spot + n.amt_csh, tvl, 1e-9), "%r" % fields(n))
        else:
            j.true("amounts given", fields(n) == before, "%r" % fields(n))
    elif kind == "sb":
        _, s, b = item
        sa, sb = (min(s), max(s)) if isinstance(s, tuple) else (s, s)
        ba, bb = (max(b), min(b)) if isinstance(b, tuple) else (b, b)
        for fixed in (True, False):
            for ov in (True, False):
                r, e = call(strategy.from_sb, s, b, fixed=fixed, overlapping=ov)
                if ba > sa and not ov:
                    j.true("overlapping", isinstance(e, ValueError), "%r %r" % (r, e))
                elif j.true("from_sb", e is None, "raised %r" % (e,)):
                    expect(j, "sb", r, p_sell_a=sa, p_sell_b=sb, p_buy_a=ba, p_buy_b=bb, rescale=not fixed)
        r, e = call(strategy.from_sb, s, b)
        if ba <= sa and j.true("from_sb", e is None, "raised %r" % (e,)):
            expect(j, "sb defaults", r, p_sell_a=sa, p_sell_b=sb, p_buy_a=ba, p_buy_b=bb, rescale=False)
    elif kind == "u3":
        _, lo, hi, below, tvl, fee = item
        s, e = call(strategy.from_u3, lo, hi, below, tvl, fee, "A", "B")
        if hi < lo:
            j.true("price order", isinstance(e, ValueError), "%r %r" % (s, e))
            return
        if not j.true("from_u3", e is None, "raised %r" % (e,)):
            return
        T = 1000 if tvl is None else tvl
        mid = sqrt(lo * hi)
        sh = mid * (fee or 0) / 2
        expect(j, "u3", s, 1e-9, p_sell_a=lo + sh, p_sell_b=hi + sh, p_buy_a=hi - sh, p_buy_b=lo - sh, amt_rsk=T / mid if below else 1e-10,
               amt_csh=1e-10 if below else T, y_int_sell=T / mid, y_int_buy=T, rsk="A", csh="B", rescale=False)
        dct_ok(j, s)
    elif kind == "dct":
        dct_case(item[1], t, j)
    elif kind == "dr":
        dr_case(t, j)
    else:
        sim_case(t, j)


def dct_ok(j, s):
    w = dict(tkn=s.rsk, amt_sell=s.amt_rsk, psell_start=s.p_sell_a, psell_end=s.p_sell_b, amt_buy=s.amt_csh, pbuy_start=s.p_buy_a, pbuy_end=s.p_buy_b,
             pair=s.rsk + "/" + s.csh, psell_marginal=s.psell_marginal, pbuy_marginal=s.pbuy_marginal, y_int_sell=s.y_int_sell, y_int_buy=s.y_int_buy)
    j.true("dct", s.dct == w, "%r" % s.dct)
    j.true("p", s.p == (s.rsk, s.amt_rsk, s.p_sell_a, s.p_sell_b, s.amt_csh, s.p_buy_a, s.p_buy_b), "")
    d, e = call(lambda: s.descr)
    j.true("descr", e is None and s.rsk in d and s.csh in d, "%r %r" % (d, e))


def dct_case(k, t, j):
    base = dict(strat_m=100, strat_g=0.1)
    W = [dict(strat_w=0.2), dict(strat_wsell=0.2, strat_wbuy=0.4), dict(strat_w=0.9, strat_wsell=0.2, strat_wbuy=0.4), dict(strat_w=0.3, strat_wsell=0.2),
         dict(strat_wsell=0, strat_wbuy=0.5), dict(strat_wsell=0.5, strat_wbuy=0), dict(strat_w=0), dict(strat_w=0.3, strat_wbuy=0.2)]
    wv = [(0.2, 0.2), (0.2, 0.4), (0.2, 0.4), (0.3, 0.3), (0, 0.5), (0.5, 0), (0, 0), (0.3, 0.3)]
    U = [dict(strat_u=0.2), dict(strat_usell=0.2, strat_ubuy=0.4), dict(strat_u=0.9, strat_usell=0.1, strat_ubuy=0.4), dict(strat_u=0.3, strat_ubuy=0.2),
         dict(strat_usell=0, strat_ubuy=0.4), dict(strat_usell=0.8, strat_ubuy=0), dict(strat_u=0), dict(strat_usell=0.9, strat_ubuy=0.3)]
    uv = [(0.2, 0.2), (0.2, 0.4), (0.1, 0.4), (0.3, 0.3), (0, 0.4), (0.8, 0), (0, 0), (0.9, 0.3)]
    if k >= 40:
        k -= 40
        i, l, ty = k % 8, (k // 8) % 8, ("mgw", "MGW")[k // 64]
        s, e = call(strategy.from_dct, dict(base, strat_type=ty, **W[i], **U[l]))
        want = strategy.from_mgw(m=100, g=0.1, w=wv[i], u=uv[l])
        j.true("from_dct mgw", e is None and fields(s) == fields(want), "%r %r" % (s, e))
    elif k in (32, 33):
        s, e = call(strategy.from_dct, dict(strat_type=("fixed", "Fixed")[k - 32], p_sell_a=110, p_sell_b=120, p_buy_a=90, p_buy_b=80))
        if j.true("from_dct fixed", e is None, "raised %r" % (e,)):
            expect(j, "from_dct fixed", s, p_sell_a=110, p_sell_b=120, p_buy_a=90, p_buy_b=80, rescale=False)
    elif k in (34, 35, 36):
        d = dict(strat_type="uv3", p_lo=80, p_hi=120, start_below=(0, 1, True)[k - 34], fee_pc=(None, 0.01, 0.003)[k - 34])
        s, e = call(strategy.from_dct, d)
        w = strategy.from_u3(80, 120, bool(d["start_below"]), fee_pc=d["fee_pc"])
        j.true("from_dct uv3", e is None and fields(s) == fields(w), "%r %r" % (s, e))
    else:
        d = [dict(strat_type="xyz"), dict(p_lo=1), dict(strat_type="mgw", strat_m=100)][k - 37]
        s, e = call(strategy.from_dct, d)
        j.true("from_dct invalid", e is not None, "%r" % (s,))
        s, e = call(strategy.from_dct, d, raiseonerror=False)
        j.true("from_dct invalid", e is None and s is None, "%r %r" % (s, e))


def dr_case(t, j):
    recs = {}
    for i, (a, b) in enumerate(itertools.product((1, 2, "x"), (None, 3))):
        recs["r%d" % i] = dict(id0=i, comment="c%d" % i, a=a, b=b)
    keys = list(recs)
    for k0 in keys:
        for k in keys:
            r, r0 = recs[k], recs[k0]
            full = {f: (r[f] if r[f] != r0[f] else None) for f in r0}
            j.true("dr", strategy.dr(r, r0, purge=False) == full, "%r" % strategy.dr(r, r0, purge=False))
            w = {f: v for f, v in full.items() if v is not None and f not in ("id0", "comment")}
            j.true("dr", strategy.dr(r, r0) == w, "")
    for n in range(1, 5):
        rr = {k: recs[k] for k in keys[:n]}
        v, e = call(strategy.drr, rr)
        w = {k: strategy.dr(rr[k], rr[keys[0]]) for k in rr}
        j.true("drr", e is None and v == w, "%r %r" % (v, e))
        v, e = call(strategy.drr, rr, baseline=True)
        j.true("drr baseline", e is None and v == dict(w, **{keys[0]: {f: x for f, x in recs[keys[0]].items() if f not in ("id0", "comment")}}), "%r %r" % (v, e))
        v, e = call(strategy.drr, rr, asdf=True)
        if j.true("drr frame", e is None, "raised %r" % (e,)):
            cols = sorted({f for k in rr for f in w[k]})
            j.true("drr frame", sorted(v.columns) == cols and list(v.index) == list(rr), "%r" % (v,))
            for k in rr:
                for f in cols:
                    j.true("drr frame", v.loc[k][f] == w[k].get(f, ""), "%r" % (v,))
    df = pd.DataFrame([dict(id=i, a=i * 2) for i in range(3)], index=["p", "q", "r"])
    j.true("rr", strategy.rr(df) == {"p": dict(id=0, a=0), "q": dict(id=1, a=2), "r": dict(id=2, a=4)}, "")
    j.true("r0", strategy.r0(strategy.rr(df)) == dict(id=0, a=0), "")
    for v in (0, 1, 2.5, -1e9, "x", None, "", True, (1, 2)):
        j.true("filter_isnan", strategy.filter_isnan(v) is v, "%r -> %r" % (v, strategy.filter_isnan(v)))
    j.true("filter_isnan", strategy.filter_isnan(float("nan")) == "", "")


def sim_case(t, j):
    """a strategy added to the simulator has the ranges, amounts and marginal prices it describes"""
    from carbon import CarbonSimulatorUI
    for g in (0.01, 0.5):
        for w in (0, 0.1, (0.5, 1.5)):
            for u in (0, 0.3, (0.9, 0.1), 1):
                s = strategy.from_mgw(m=100, g=g, w=w, u=u, amt_rsk=5, amt_csh=700, rsk="ETH", csh="USDC")
                sim = CarbonSimulatorUI(pair=s.slashpair, raiseonerror=True)
                r, e = call(sim.add_strategy, **s.dct)
                if not j.true("add_strategy", e is None and r["success"], "%r %r" % (r, e)):
                    continue
                o = {x.tkn: x for x in sim.state()["orderuis"].values()}
                a, b = o["ETH"], o["USDC"]
                j.true("ask", same(a.p_start, s.p_sell_a, 1e-9) and same(a.p_end, s.p_sell_b, 1e-9) and same(float(a.y), 5), "%r" % (a,))
                j.true("bid", same(b.p_start, s.p_buy_a, 1e-9) and same(b.p_end, s.p_buy_b, 1e-9) and same(float(b.y), 700), "%r" % (b,))
                j.true("marginal", same(a.p_marg, s.psell_marginal or s.p_sell_a, 1e-8) and same(b.p_marg, s.pbuy_marginal or s.p_buy_a, 1e-8),
                       "%r %r, expected %r %r" % (a.p_marg, b.p_marg, s.psell_marginal, s.pbuy_marginal))


# ---------------------------------------------------------------- H02

def mkstrat(code):
    k, a = code[0], code[1:]
    if k == "mgw":
        return strategy.from_mgw(m=a[0], g=a[1], w=a[2], u=a[3], amt_rsk=a[4], amt_csh=a[5])
    if k == "fix":
        return strategy(a[0], a[1], a[2], a[3], amt_rsk=a[4], amt_csh=a[5], rescale=False)
    return strategy.from_u3(a[0], a[1], a[2], a[3], a[4])


STRATS = {
    "plain": [("mgw", 100, 0.1, 0.2, 0, 5, 400)],
    "used": [("mgw", 100, 0.2, (0.5, 1.5), (0.4, 0.7), 2, 1000)],
    "asym": [("mgw", 100, 0.02, (0.05, 0.4), (0, 0.5), 0, 500)],
    "rskonly": [("mgw", 100, 0.05, 0.3, 0, 7, 0)],
    "fixed": [("fix", 110, 130, 95, 70, 3, 200)],
    "two": [("mgw", 100, 0.1, 0.2, 0, 5, 400), ("fix", 105.5, 105.5, 78.5, 78.5, 1, 50)],
    "three": [("fix", 105, 140, 98, 60, 2, 100), ("mgw", 100, 0.4, 0.3, 0.5, 1, 10), ("fix", 101, 102, 100, 99, 4, 800)],
    "v3below": [("u3", 90, 125, True, 1000, None)],
    "v3above": [("u3", 80, 96, False, 2500, None)],
    "v3fee": [("u3", 95, 120, True, 700, 0.02)],
}
LEVELS = {"plain": (100, 90, 75, 108, 140), "fixed": (100, 84, 60, 119, 150), "v3below": (85, 95, 104, 118, 140), "v3above": (110, 70, 84, 93, 99), "v3fee": (88, 97, 104, 118, 135)}


def h02_items(th):
    n = 5 if th else 4
    for name in STRATS:
        lv = LEVELS.get(name, (100, 90, 75, 108, 140))
        for p in itertools.product(lv, repeat=n - 1):
            if any(a == b for a, b in zip((lv[0],) + p, p)) and not th and p[0] != lv[0]:
                continue
            yield (name, (lv[0],) + p, 0)
    for name in ("plain", "used", "two"):
        for shift in (-0.1, 0.05, 0.3):
            for p in itertools.product((100, 85, 120), repeat=3):
                yield (name, (100,) + p, shift)
        for f in (0.001, 1, 30):
            for p in itertools.product((1, 0.8, 1.15), repeat=3):
                yield (name, (100 * f,) + tuple(100 * f * x for x in p), 0)
    for name in ("plain", "fixed"):
        for z in ((0, 100, 90, 120), (0, 0, 100, 80, 130)):
            yield (name, z, 0)
    yield ("bad",)
    yield ("sc",)


class Ord:
    def __init__(self, y, pa, pb, pm, yint):
        self.c = ref.Curve(y, y, pa, pb)
        c = self.c
        if yint is not None:
            c.z = max(yint, y)
        elif pm is not None and c.A:
            c.z = y * c.A / (sqrt(pm) - c.B)

    def to(self, price):
        """(out, in) of trading to the price in T per O"""
        out = self.c.out_at(sqrt(price))
        dx = self.c.dx_for_dy(out) if out > 0 else 0.0
        self.c.y -= out
        return out, dx


def add(o, x):
    o.c.y += x
    o.c.z = max(o.c.z, o.c.y)


def h02(item, t):
    from carbon.helpers import simulation as SIM
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "bad":
        a, b = mkstrat(("fix", 110, 130, 95, 70, 3, 200)), strategy(110, 130, 95, 70, amt_rsk=1, amt_csh=1, rsk="OTHER")
        path = pd.Series([100., 110., 90.], index=pd.date_range("2020-01-01", periods=3))
        r, e = call(SIM.run_sim, (a, b), path)
        j.true("different pairs", isinstance(e, ValueError), "%r %r" % (r, e))
        return
    if item[0] == "sc":
        return sc_case(SIM, j)
    name, prices, shift = item
    strats = [mkstrat(c) for c in STRATS[name]]
    before = [fields(s) for s in strats]
    ix = pd.date_range("2020-01-01", periods=len(prices), freq="D")
    path = pd.Series([float(x) for x in prices], index=ix)
    arg = strats[0] if len(strats) == 1 else list(strats)
    r, e = call(SIM.run_sim, arg, path, shift or None)
    if not j.true("run_sim", e is None, "raised %r" % (e,)):
        return
    t.add("paths")
    j.true("strategies untouched", [fields(s) for s in strats] == before and list(path) == [float(x) for x in prices], "")
    live = [(d, p) for d, p in zip(ix, prices) if p > 0]
    spots = [float(p) for _, p in live]
    j.true("spot", list(r.spot_r) == spots and list(r.spot_r.index) == [d for d, _ in live], "%r" % (r.spot_r,))
    rs = [s.rescale_strat(spots[0] * (1 + shift)) for s in strats]
    j.true("strategies", [fields(s) for s in r.strat] == [fields(s) for s in rs], "%r" % (r.strat,))
    book = []
    for s in rs:
        sell = Ord(s.amt_rsk, 1 / s.p_sell_a, 1 / s.p_sell_b, s.psell_marginal and 1 / s.psell_marginal, s.y_int_sell)
        buy = Ord(s.amt_csh, s.p_buy_a, s.p_buy_b, s.pbuy_marginal, s.y_int_buy)
        book.append((sell, buy))
    rsk, csh, ms, mb, zs = [], [], [], [], []

    def snap():
        zs.append([(a.c.z, b.c.z) for a, b in book])
        rsk.append(sum(a.c.y for a, b in book)); csh.append(sum(b.c.y for a, b in book))
        ms.append([1 / a.c.marg() for a, b in book]); mb.append([b.c.marg() for a, b in book])
    snap()
    for s in spots[1:]:
        for sell, buy in book:
            out, dx = sell.to(1 / s)
            add(buy, dx)
            out, dx = buy.to(s)
            add(sell, dx)
        snap()
    n = len(spots)
    tot_r, tot_c = max(rsk) or 1, max(csh) or 1
    got = [list(x) for x in (r.rskamt_r, r.cshamt_r)]
    j.true("risk asset amounts", len(got[0]) == n and all(abs(a - b) <= 1e-7 * tot_r + 1e-8 for a, b in zip(got[0], rsk)), "%r, expected %r" % (got[0], rsk))
    j.true("cash amounts", len(got[1]) == n and all(abs(a - b) <= 1e-7 * tot_c + 1e-7 for a, b in zip(got[1], csh)), "%r, expected %r" % (got[1], csh))
    for tag, g, w in (("buy", r.margpbuy_r, ms), ("sell", r.margpsell_r, mb)):
        # the recorded series of the simulator: "buy" are the orders holding the risk asset
        ok = len(g) == len(rs) and all(len(x) == n for x in g)
        if j.true("marginal prices", ok, "%r" % (g,)):
            for k in range(len(rs)):
                # an order that never had any tokens has no marginal price of interest
                had = [z[k][tag == "sell"] > 1e-6 for z in zs]
                j.true("marginal prices", all(E(float(a), b[k], 1e-6) for a, b, h in zip(g[k], w, had) if h), "%s %r, expected %r" % (tag, g[k], [x[k] for x in w]))
    v = list(r.value_r)
    j.true("value", len(v) == n and all(E(a, x * p + y, 1e-9) for a, x, y, p in zip(v, got[0], got[1], spots)) and list(r.value_r.index) == [d for d, _ in live], "%r" % (v,))
    hd = list(r.hodl_r)
    j.true("hodl", len(hd) == n and all(E(a, got[0][0] * p + got[1][0], 1e-9) for a, p in zip(hd, spots)), "%r" % (hd,))
    if name in ("v3below", "v3above") and shift == 0:
        _, lo, hi, below, tvl, fee = STRATS[name][0]
        L = tvl / sqrt(lo * hi) / (1 / sqrt(lo) - 1 / sqrt(hi))
        for i, p in enumerate(spots):
            q = sqrt(min(max(p, lo), hi))
            j.true("uniswap position", abs(got[0][i] - L * (1 / q - 1 / sqrt(hi))) <= 1e-6 * L / sqrt(lo) and abs(got[1][i] - L * (q - sqrt(lo))) <= 1e-6 * L * sqrt(hi),
                   "at %s: %r %r, expected %r %r" % (p, got[0][i], got[1][i], L * (1 / q - 1 / sqrt(hi)), L * (q - sqrt(lo))))


def sc_case(SIM, j):
    for n in (2, 3, 7):
        for w in ((1, 1), (3, 1), (0, 2)):
            d = {"filtered price chart": ["%d" % (100 + 7 * i) for i in range(n)], "carbon order weights": [str(x) for x in w],
                 "carbon order boundaries": ["130", "110", "90", "70"], "carbon starting prices": ["115", "88"], "starting portfolio valuation": ["5000"],
                 "uniswap range boundaries": ["80", "120"]}
            sc = SIM.StartConditions(d)
            j.true("start conditions", sc.num_points == n and sc.path_raw == [100. + 7 * i for i in range(n)], "")
            dt = list(sc.datetime)
            j.true("start conditions times", len(dt) == n and dt[0] == sc.start_dt and abs((dt[-1] - sc.end_dt) / pd.Timedelta(seconds=1)) < 1
                   and all(abs((b - a - sc.time_step) / pd.Timedelta(seconds=1)) < 1 for a, b in zip(dt, dt[1:])), "%r" % (dt,))
            p = sc.path
            j.true("start conditions path", list(p) == sc.path_raw and list(p.index) == dt, "%r" % (p,))
            s = sc.strategy_carbon
            j.true("start conditions value", E(s.amt_rsk * 100 + s.amt_csh, 5000, 1e-9) or w[0] == 0, "%r" % (s,))
            j.true("start conditions strategy", (s.p_sell_a, s.p_sell_b, s.p_buy_a, s.p_buy_b, s.psell_marginal, s.pbuy_marginal) == (110, 130, 90, 70, 115, 88), "%r" % (s,))
            j.true("start conditions weights", abs(s.amt_rsk * 100 * w[1] - s.amt_csh * w[0]) < 1e-6, "%r" % (s,))
            j.true("start conditions uniswap", sc.uni_ranges_raw == [80., 120.], "")
    tmp = tempfile.mkdtemp()
    try:
        fn = os.path.join(tmp, "x.pickle")
        with open(fn, "wb") as f:
            pickle.dump(d, f)
        s, e = call(SIM.StartConditions.load, fn)
        j.true("start conditions load", e is None and s.path_raw == sc.path_raw, "%r" % (e,))
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- H03

PK = ("a", "b")
POPS = ([("setitem", k, v) for k in PK for v in (1, None)] + [("set", k, v, u) for k in PK for v in (2, 0) for u in (True, False)]
        + [("add", "a", 3, "b", 4), ("add", "b", 5)] + [("default", k, v) for k in PK for v in (10, None)] + [("default",)]
        + [("getitem", k) for k in PK] + [("getattr", k) for k in PK] + [("get_default", "a", False), ("get_default", "b", True), ("defaults",)]
        + [("construct", d) for d in (None, 20)] + [("replica", m) for m in ("deepcopy", "pickle")])
PSTART = [("new", ()), ("new", (("a", 7),)), ("con", None, None), ("con", (("a", 7),), None), ("con", (("a", 7),), (("a", 70), ("b", 80))), ("con", None, (("b", 80),)), ("con", (), ())]


def h03_items(th):
    d = 4 if th else 3
    for s in range(len(PSTART)):
        for first in range(len(POPS)):
            yield (s, first, d)


def pobserve(j, p, P, D):
    j.true("params", p.params == P, "%r, expected %r" % (p.params, P))
    for k in PK + ("zz",):
        w = P[k] if k in P else D.get(k)
        # indexing never fails; attributes have to exist as parameter or default
        v, e = call(lambda: getattr(p, k))
        if k in P or k in D:
            j.true("attribute", e is None and v == w and type(v) == type(w), "%s: %r %r, expected %r" % (k, v, e, w))
        else:
            j.true("missing attribute", e is not None, "%s: %r" % (k, v))


def papply(j, p, P, D, op):
    k = op[0]
    if k == "setitem":
        def f(): p[op[1]] = op[2]
        _, e = call(f)
        if op[1] in P:
            j.true("no re-assignment", isinstance(e, ValueError), "%r" % (e,))
        else:
            j.true("assignment", e is None, "%r" % (e,))
            P[op[1]] = op[2]
    elif k == "set":
        v, e = call(p.set, op[1], op[2], allowupdate=op[3])
        if op[1] in P and not op[3]:
            j.true("no update", isinstance(e, ValueError), "%r" % (e,))
        else:
            j.true("set", e is None and v is p, "%r" % (e,))
            P[op[1]] = op[2]
    elif k == "add":
        kv = dict(zip(op[1::2], op[2::2]))
        v, e = call(p.add, **kv)
        if any(x in P for x in kv):
            j.true("add existing", isinstance(e, ValueError), "%r" % (e,))
            for x in kv:                    # parameters before the existing one may have been added
                if x in p.params and x not in P:
                    P[x] = kv[x]
        else:
            j.true("add", e is None and v is p, "%r" % (e,))
            P.update(kv)
    elif k == "default":
        v, e = call(p.set_default, **dict([op[1:]] if len(op) > 1 else []))
        j.true("set_default", e is None and v is p, "%r" % (e,))
        if len(op) > 1:
            D[op[1]] = op[2]
    elif k == "getitem":
        v, e = call(lambda: p[op[1]])
        w = P[op[1]] if op[1] in P else D.get(op[1])
        j.true("item", e is None and v == w, "%r %r, expected %r" % (v, e, w))
    elif k == "getattr":
        v, e = call(lambda: getattr(p, op[1]))
        if op[1] in P or op[1] in D:
            j.true("attribute", e is None and v == (P[op[1]] if op[1] in P else D[op[1]]), "%r %r" % (v, e))
        else:
            j.true("missing attribute", e is not None, "%r" % (v,))
    elif k == "get_default":
        v, e = call(p.get_default, op[1], raiseonerror=op[2])
        if op[1] in D or not op[2]:
            j.true("get_default", e is None and v == D.get(op[1]), "%r %r" % (v, e))
        else:
            j.true("get_default raises", e is not None, "%r" % (v,))
    elif k == "replica":
        q, e = call(copy.deepcopy, p) if op[1] == "deepcopy" else call(lambda: pickle.loads(pickle.dumps(p)))
        if j.true("replica", e is None and q is not p, "raised %r" % (e,)):
            pobserve(j, q, dict(P), dict(D))
            q.set("a", "changed")
            pobserve(j, p, P, D)
            # names with a leading underscore are never parameters when read as attribute
            q.set("_z", 5)
            v, e = call(lambda: q._z)
            j.true("private attribute", isinstance(e, AttributeError) and q["_z"] == 5, "%r %r" % (v, e))
    elif k == "defaults":
        j.true("defaults", p.defaults == D, "%r, expected %r" % (p.defaults, D))
    elif k == "construct":
        kw = {} if op[1] is None else dict(defaults={"a": op[1]})
        q, e = call(Params.construct, p, **kw)
        if D and kw:
            j.true("defaults twice", isinstance(e, ValueError), "%r" % (q,))
        elif j.true("construct", e is None and q is not p, "raised %r" % (e,)):
            P2, D2 = dict(P), dict(D or kw.get("defaults", {}))
            pobserve(j, q, P2, D2)
            q.set("a", "changed"); q.set_default(b="changed")       # the replica is independent
            P2["a"] = "changed"; D2["b"] = "changed"
            pobserve(j, q, P2, D2)
            return q, P2, D2
    return p, P, D


def h03(item, t):
    s, first, d = item
    for n in range(d):
        for rest in itertools.product(range(len(POPS)), repeat=n):
            if n == d - 1 and n > 1 and (first + sum(rest)) % 1:
                continue
            seq = (first,) + rest
            j = J(t, [s, list(seq)])
            t.add("histories")
            hist03(j, s, seq)
    t.seen("states", item)


def hist03(j, s, seq):
    st = PSTART[s]
    src = dict(st[1] or ())
    ds = dict(st[2] or ()) if st[0] == "con" else {}
    if st[0] == "new":
        p = Params(**src)
    else:
        p = Params.construct(None if st[1] is None else src, defaults=None if st[2] is None else ds)
    P, D = dict(src), dict(ds)
    alive = []
    for k in seq:
        op = POPS[k]
        q, P2, D2 = papply(j, p, P, D, op)
        if q is not p:
            alive.append((p, dict(P), dict(D)))
            p, P, D = q, P2, D2
    pobserve(j, p, P, D)
    for q, a, b in alive:
        pobserve(j, q, a, b)
    j.true("sources untouched", src == dict(st[1] or ()) and ds == (dict(st[2] or ()) if st[0] == "con" else {}), "%r %r" % (src, ds))
    r, e = call(lambda: eval(repr(p), dict(Params=Params)))
    if j.true("repr", e is None and isinstance(r, Params), "%r" % (e,)):
        pobserve(j, r, P, D)


# ---------------------------------------------------------------- H04

from carbon.helpers.sharedvar import SharedVar      # noqa: E402
import operator as op_                               # noqa: E402

SV = (0, 1, 3, -2, 7, 0.5, -2.5, 1e9, 0.05, -1e-9)
BIN = dict(add=op_.add, sub=op_.sub, mul=op_.mul, floordiv=op_.floordiv, truediv=op_.truediv, mod=op_.mod, pow=op_.pow, lshift=op_.lshift, rshift=op_.rshift,
           and_=op_.and_, or_=op_.or_, xor=op_.xor, divmod=divmod)
CMP = dict(eq=op_.eq, ne=op_.ne, lt=op_.lt, le=op_.le, gt=op_.gt, ge=op_.ge)
UN = dict(pos=op_.pos, neg=op_.neg, abs=abs, round0=lambda x: round(x, 0), round1=lambda x: round(x, 1), round=round, floor=math.floor, ceil=math.ceil, trunc=math.trunc)
CONV = dict(int=int, float=float, complex=complex, str=str, bool=bool)
INP = dict(iadd=op_.iadd, isub=op_.isub, imul=op_.imul, ifloordiv=op_.ifloordiv, itruediv=op_.itruediv, imod=op_.imod, ipow=op_.ipow, ilshift=op_.ilshift,
           irshift=op_.irshift, iand=op_.iand, ior=op_.ior, ixor=op_.ixor)


def h04_items(th):
    for a in SV:
        for b in SV:
            yield ("bin", a, b)
        yield ("un", a)
    ops = sorted(INP)
    for i, k in enumerate(ops):
        for j in ops:
            yield ("hist", k, j, 3 if th else 2)
    yield ("link",)


def eqv(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return type(a) == type(b) and a == b
    if a == 0 == b and isinstance(a, float) and isinstance(b, float) and math.copysign(1, a) != math.copysign(1, b):
        return False
    return a == b and type(a) == type(b) or (a != a and b != b)


def val(x):
    return x.value if isinstance(x, SharedVar) else x


def h04(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "bin":
        _, a, b = item
        for nm, f in BIN.items():
            w, e0 = call(f, a, b)
            for tag, x, y in (("left", SharedVar(a), b), ("right", a, SharedVar(b)), ("both", SharedVar(a), SharedVar(b))):
                g, e = call(f, x, y)
                if e0 is not None:
                    j.true(nm + " error", type(e) == type(e0), "%s: %r, expected %r" % (tag, e or g, e0))
                    continue
                if not j.true(nm, e is None, "%s raised %r" % (tag, e)):
                    continue
                gs, ws = (g, w) if isinstance(w, tuple) else ((g,), (w,))
                j.true(nm, len(gs) == len(ws) and all(eqv(val(p), q) for p, q in zip(gs, ws)), "%s %r, expected %r" % (tag, g, w))
                j.true(nm + " type", all(isinstance(p, SharedVar) for p in gs), "%s %r" % (tag, type(g)))
                j.true(nm + " operands", (val(x), val(y)) == (a, b), "")
        for nm, f in CMP.items():
            for x, y in ((SharedVar(a), b), (a, SharedVar(b)), (SharedVar(a), SharedVar(b))):
                g, e = call(f, x, y)
                j.true(nm, e is None and g is f(a, b), "%r %r" % (g, e))
    elif item[0] == "un":
        a = item[1]
        for nm, f in UN.items():
            x = SharedVar(a)
            g, e = call(f, x)
            j.true(nm, e is None and eqv(val(g), f(a)) and isinstance(g, SharedVar) and g is not x and x.value == a, "%r %r" % (g, e))
        for nm, f in CONV.items():
            g, e = call(f, SharedVar(a))
            j.true(nm, e is None and eqv(g, f(a)), "%r %r" % (g, e))
        if isinstance(a, int):
            for f in (hex, oct, bin, op_.index):
                g, e = call(f, SharedVar(a))
                j.true("index", e is None and g == f(a), "%r %r" % (g, e))
        x = SharedVar(a)
        j.true("repr", repr(x) == "SharedVar(%r, oid=%d)" % (a, id(x)) and x.id == id(x), "%r" % x)
        j.true("setval", x.setval(12) is x and x.value == 12, "")
    elif item[0] == "hist":
        _, k1, k2, d = item
        for v0 in (6, 5.5, -2.5, -3, 0, -0.0, True):
            for args in itertools.product((2, 3, 0.5, -2, "s"), repeat=d):
                for more in ((None,) if d == 2 else (None, "setval", "iadd", "imul")):
                    hist04(j, t, v0, [k1, k2] + ([more] if more else []), args)
    else:
        # an alias sees every in-place operation; a binary operation gives an independent object; plain assignment breaks the link
        x = y = SharedVar(5)
        y += 1
        j.true("alias", x is y and x == 6 and y == 6, "%r %r" % (x, y))
        x.setval(-1)
        j.true("alias", x == -1 and y == -1, "")
        z = x + 1
        z += 10
        j.true("independent", x == -1 and z == 10, "%r %r" % (x, z))
        s = SharedVar(3)
        x += s
        v = x.value
        s += 100
        j.true("operand", x == 2 and s == 103, "%r %r" % (x, s))
        x += 5
        j.true("value is a number", v == 2 and x == 7 and y == 7 and not isinstance(v, SharedVar), "%r %r" % (v, x))


def hist04(j, t, v0, ops, args):
    x = y = SharedVar(v0)
    cell = v0
    t.add("histories")
    for k, a in zip(ops, args):
        other = SharedVar(2) if a == "s" else a
        n = 2 if a == "s" else a
        if k == "setval":
            x.setval(n); cell = n
            continue
        w, e0 = call(INP[k], cell, n)
        if e0 is None and isinstance(w, (int, float)) and abs(w) > 1e30:
            return
        r, e = call(INP[k], x, other)
        if e0 is not None:
            j.true(k + " error", type(e) == type(e0), "%r %r: %r, expected %r" % (cell, a, e or r, e0))
        else:
            j.true(k, e is None and r is y, "%r %r: %r %r" % (cell, a, r, e))
            cell = w
        j.true(k + " value", eqv(y.value, cell), "%r after %r %r, expected %r" % (y.value, ops, args, cell))
        j.true("operand untouched", val(other) == n, "")


# ---------------------------------------------------------------- H05

from carbon.helpers import floatint as FI                    # noqa: E402
from carbon.helpers.soltest import SolTestBase               # noqa: E402
from carbon.helpers import version as VER                    # noqa: E402
from carbon.tools.univ3calc import Univ3Calculator as U3     # noqa: E402
from carbon.tools import tokenscale as TS                    # noqa: E402
from carbon.tools.simplepair import SimplePair               # noqa: E402

CFI = ("CarbonFloatInt32", "CarbonFloatInt40", "CarbonFloatInt48", "CarbonFloatInt60", "CarbonFloatInt64", "CarbonFloatInt128")


def h05_items(th):
    for k in range(0, 305):
        yield ("int", k)
    for c in CFI:
        yield ("float", c)
    for lv in range(5):
        yield ("sol", lv)
    V = [p for n in (1, 2, 3) for p in itertools.product((0, 1, 2, 10), repeat=n)]
    for a in V:
        yield ("ver", a)
    for d0 in (0, 6, 8, 18):
        for d1 in (0, 6, 8, 18):
            for fee in (100, 500, 3000, 10000):
                for tick in (-200001, -60, -1, 0, 1, 59, 60, 61, 199801):
                    yield ("u3", d0, d1, fee, tick)
    yield ("scale",)
    T = ("USDC", "DAI", "WETH", "ETH", "LINK", "BNT", "WETH-6Cc2", "USDC(x)", "aUSDC", "link")
    for a in T:
        for b in T:
            yield ("pair", a, b)


def h05(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    k = item[0]
    if k == "int":
        n = item[1]
        vals = {2 ** n + d for d in (-3, -2, -1, 0, 1, 2, 3)} | {2 ** n + s * 2 ** m + d for m in range(max(0, n - 45), n) for s in (1, -1) for d in (-1, 0, 1)}
        vals |= {(2 ** 40 - 1) << n, ((2 ** 40 - 1) << n) + 1, ((2 ** 40 - 1) << n) + (2 ** n - 1), (2 ** 41 - 1) << n}
        for v in sorted(x for x in vals if x >= 0):
            bl = v.bit_length()
            for c in (FI.CarbonFloatInt64, FI.CarbonFloatInt32):
                r, e = call(c.from_int, v)
                if bl - 40 > 255:
                    j.true("too large", isinstance(e, AssertionError), "%d: %r %r" % (v, r, e))
                    continue
                if not j.true("from_int", e is None, "%d raised %r" % (v, e)):
                    continue
                ex = max(0, bl - 40)
                j.true("significant digits", (r.significant, r.exponent) == (v >> ex, ex), "%d: %r" % (v, r))
                j.true("rounds down", r.asint == (v >> ex) << ex and int(r) == r.asint and r.asint <= v < r.asint + 2 ** ex, "%d: %r" % (v, r))
                j.true("hex", r.ashex == hex(r.asint) and r.asint1 == (r.asint, 2 ** c.ONE_EXPONENT), "")
                j.true("dict", r.asdict == dict(significant=r.significant, exponent=r.exponent) and r.astuple == (r.significant, r.exponent)
                       and r.astuple1 == (r.significant, r.exponent, c.ONE_EXPONENT), "")
                j.true("stable", c.from_int(r.asint).asint == r.asint, "%d" % v)
                j.true("bounds", r.asint <= c.max().asint, "%d" % v)
            j.true("binary digits", SolTestBase.bindig(v) == bl and FI.CarbonFloatInt64.bindig(v) == bl, "%d" % v)
    elif k == "float":
        c = getattr(FI, item[1])
        for m in (1, 1.5, 1 / 3, sqrt(2), math.pi, 0.999999999999, 1.0000000000001):
            for x in range(-40, 60, 3):
                f = m * 2.0 ** x
                r, e = call(c.from_float, f)
                if not j.true("from_float", e is None, "%r" % (e,)):
                    continue
                tol = max(2.0 ** -c.ONE_EXPONENT, f * 2.0 ** -39)
                j.true("float", 0 <= f - r.asfloat + f * 1e-15 and f - r.asfloat <= tol and float(r) == r.asfloat, "%r -> %r" % (f, r.asfloat))
        for bad in (-1, -0.5, 1.5, "3", None):
            r, e = call(c.from_int, bad)
            j.true("invalid integer", isinstance(e, AssertionError), "%r: %r %r" % (bad, r, e))
        r, e = call(c.from_float, -0.7)
        j.true("negative", e is not None, "%r" % (r,))
        for sg, ex in ((1, -1), (1.5, 0), (1, 0.5)):
            r, e = call(c, sg, ex)
            j.true("invalid", isinstance(e, AssertionError), "%r" % (r,))
        for p in (0, 1, 5):
            j.true("extremes", c.min(p).asint == 1 + p and c.max(p).asint == (2 ** 40 - 1 - p) << 255 and c.from_int(c.max(p).asint) == c.max(p), "")
        j.true("one", c._one() == 2 ** int(item[1][14:]) and c.from_float(1.0).asint == c._one() and c.from_float(1.0).one == c._one(), "")
    elif k == "sol":
        sol_case(item[1], j)
    elif k == "ver":
        a = item[1]
        for b in [p for n in (1, 2, 3) for p in itertools.product((0, 1, 2, 10), repeat=n)]:
            A, B = list(a) + [0] * (3 - len(a)), list(b) + [0] * (3 - len(b))
            want = A <= B
            ra, rb = ".".join(map(str, a)), ".".join(map(str, b))
            for sa, sb in ((ra, rb), (ra + "-beta2", rb + "rc1"), (" " + ra, rb + " ")):
                v, e = call(VER.require_version, sa, sb, raiseonfail=False)
                j.true("version", e is None and v is want, "%r %r: %r %r" % (sa, sb, v, e))
            v, e = call(VER.require_version, ra, rb)
            j.true("version raises", (e is None) if want else isinstance(e, VER.VersionRequirementNotMetError), "%r %r: %r" % (ra, rb, e))
        j.true("split", list(VER.split_version_str(".".join(map(str, a)) + "-x")) == list(a), "")
        import carbon
        v = VER.require_version(".".join(map(str, a)), raiseonfail=False)
        cur = [int(x) for x in carbon.__version__.split("-")[0].split(".") if x.isdigit()][:3]
        j.true("current version", v is (list(a) + [0] * (3 - len(a)) <= cur), "%r %r" % (a, carbon.__version__))
    elif k == "u3":
        u3_case(item, j)
    elif k == "scale":
        for init in ({}, {"A": 1e3}, {"A": 1e3, "B": 5}):
            s = TS.TokenScale.from_tokenscales(**init)
            w = dict(init)
            for step in ((), ("C", 7), ("A", 0.5), ("B", 1e-9)):
                if step:
                    s.add_scale(*step); w[step[0]] = step[1]
                for tkn in ("A", "B", "C", "D"):
                    j.true("token scale", s.scale(tkn) == w.get(tkn, 1e-2) and s(tkn) == s.scale(tkn), "%r %r" % (tkn, s.scale(tkn)))
        j.true("independent scales", TS.TokenScale().scale_dct is not TS.TokenScale().scale_dct, "")
        for tkn in ("A", "WETH", "x"):
            j.true("unit scale", TS.TokenScale1Data(tkn) == 1 and TS.TokenScale1().scale(tkn) == 1, "")
        for tkn, v in dict(USDC=1, LINK=10, AAVE=100, ETH=1000, WETH=1000, WBTC=10000, XXX=0.01).items():
            j.true("default scales", TS.TokenScaleData(tkn) == v, "%r" % tkn)
        v, e = call(TS.TokenScaleBase().scale, "A")
        j.true("base scale", isinstance(e, NotImplementedError), "")
    else:
        pair_case(item[1], item[2], j)


def pair_case(a, b, j):
    ps = [SimplePair("%s/%s" % (a, b)), SimplePair((a, b)), SimplePair([a, b]), SimplePair.from_tokens(a, b)]
    ps += [SimplePair(ps[0])] + list(SimplePair.wrap(["%s/%s" % (a, b), (a, b)]))
    num = ["USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC"]
    n = lambda x: x.split("-")[0].split("(")[0]
    rk = lambda x: num.index(n(x)) if n(x) in num else len(num)
    prim = (rk(b) < rk(a)) if rk(a) != rk(b) else a < b
    for p in ps:
        j.true("tokens", (p.tknb, p.tknq, p.tknx, p.tkny) == (a, b, a, b) and p.pairt == (a, b) and p.pairrt == (b, a), "%r" % (p,))
        j.true("names", p.pair == str(p) == a + "/" + b and p.pairr == b + "/" + a, "%r" % (p.pair,))
        j.true("normalized", (p.tknb_n, p.tknq_n, p.tknx_n, p.tkny_n) == (n(a), n(b), n(a), n(b)), "")
        j.true("primary", p.isprimary is prim, "%s: %r" % (p, p.isprimary))
        r = SimplePair(p.pairr)
        if a != b:
            if rk(a) != rk(b) or a != b:
                j.true("one primary", p.isprimary != r.isprimary, "%s" % p)
                j.true("primary pair", p.primary == r.primary and p.secondary == r.secondary and {p.primary, p.secondary} == {p.pair, p.pairr}, "%s: %s %s" % (p, p.primary, r.primary))
                j.true("primary pair", SimplePair(p.primary).isprimary, "")
        for x in (0.25, 1, 2000):
            j.true("primary price", p.primary_price(x) == (x if prim else 1 / x) == p.pp(x), "%r" % p.primary_price(x))
        z = p.primary_price(0)
        j.true("zero price", z != z, "%r" % z)
        j.true("equality", p == ps[0], "")
    j.true("unwrap", SimplePair.unwrap(ps) == (a + "/" + b,) * len(ps), "")
    for bad in (("A",), ("A", "B", "C"), 5, None):
        v, e = call(SimplePair, bad)
        j.true("invalid pair", isinstance(e, ValueError), "%r %r" % (bad, v))
    v, e = call(SimplePair, "A/B/C")
    j.true("invalid pair", e is not None, "%r" % (v,))


def sol_case(lv, j):
    T = SolTestBase
    M = 2 ** 256
    vals = [-5, -1, 0, 1, 99, 100, 101, 9999, 10000, 10001, 2 ** 53, 2 ** 128, M // 10000 - 10 ** 60, M // 10000 + 10 ** 62, M - 1, M, M + 1, 2 ** 300, 123.9, 99.9, 2.0 ** 255, int(T.OVERFLOW_WARN), int(T.OVERFLOW_WARN) - 1, int(T.OVERFLOW_WARN) + 1]

    def cls(v):
        v = int(v)
        if v < 0:
            return (2, True)
        if v < 100:
            return (2, False)
        if v < 10000:
            return (1, False)
        if v >= M:
            return (2, True)
        if v >= T.OVERFLOW_WARN:
            return (1, True)
        return (0, False)
    EX = {(1, True): T.OverflowWarning, (1, False): T.UnderflowWarning, (2, True): T.OverflowError, (2, False): T.UnderflowError}
    for v in vals:
        level, over = cls(v)
        got = []
        r, e = call(T().check_uint256, v, "lab", log_f=lambda **k: got.append(k))
        j.true("classification", e is None and len(got) == 1 and (got[0]["level"], bool(got[0]["isoverflow"])) == (level, over) and got[0]["label"] == "lab", "%r: %r %r" % (v, got, e))
        j.true("number", r == max(0, int(v)) and isinstance(r, int), "%r: %r" % (v, r))
        for rl in (1, 2, 9):
            for how in (0, 1):
                s = T(raise_lvl=rl, print_lvl=(0, 1, 2, 9, None)[lv], print_context=bool(how), a=1)
                with core.quiet() as _:
                    import sys
                    r, e = call(s if how else s.check_uint256, v, "lab", "ctx")
                    out = sys.stdout.getvalue()
                if level >= rl:
                    j.true("raises", type(e) is EX[(level, over)] and e.args[1:] == ({"a": 1}, "ctx"), "%r: %r" % (v, e))
                else:
                    j.true("does not raise", e is None and r == max(0, int(v)), "%r: %r" % (v, e))
                pl = (0, 1, 2, 9, 1)[lv]
                j.true("prints", bool(out) == (level >= pl) and (not out or "LAB" in out and ("OK", "WARNING", "ERROR")[level] in out or level == 0), "%r: %r" % (v, out))


def u3_case(item, j):
    _, d0, d1, fee, tick = item
    L = 37398889145617323159
    for f in (0.0, 0.3, 0.9999):
        raw = 1.0001 ** (tick + f)
        sp = int(sqrt(raw) * 2 ** 96)
        u, e = call(U3, "T0", "T1", str(sp), str(tick), str(L), fee, d0, d1)
        if not j.true("univ3", e is None, "raised %r" % (e,)):
            return
        q = {100: 1, 500: 10, 3000: 60, 10000: 200}[fee]
        j.true("fee", u.fee == fee / 1e6 and u.ticksize == q, "")
        ta, tb = u.tickab
        j.true("ticks", ta % q == 0 and tb - ta == q and ta <= tick < tb, "%r" % (u.tickab,))
        dec = 10.0 ** (d0 - d1)
        j.true("price", E(u.p, raw * dec, 1e-9) and E(u.price_tkn0_per_tkn1, 1 / (raw * dec), 1e-9), "%r" % u.p)
        pa, pb = u.papb
        j.true("range", E(pa, 1.0001 ** ta * dec, 1e-9) and E(pb, 1.0001 ** tb * dec, 1e-9), "%r" % ((pa, pb),))
        ia, ib = u.papb_tkn0_per_tkn1
        j.true("inverse range", E(ia, 1 / pa) and E(ib, 1 / pb), "")
        l = L / 10.0 ** ((d0 + d1) / 2)
        j.true("L", E(u.L, l) and E(u.kbar, l) and all(E(x, l * l) for x in (u.k, u.L2, u.Lsquared)), "%r" % u.L)
        # reserves: liquidity between the price and the ends of the tick range, in tokens
        ra, rp, rb = (sqrt(1.0001 ** ta), sp / 2 ** 96, sqrt(1.0001 ** tb))
        r0, r1 = L * (1 / rp - 1 / rb) / 10.0 ** d0, L * (rp - ra) / 10.0 ** d1
        tol0, tol1 = L / rp / 10.0 ** d0 * 1e-9, L * rp / 10.0 ** d1 * 1e-9
        j.true("reserves", abs(u.tkn0reserve() - r0) <= tol0 and abs(u.tkn1reserve() - r1) <= tol1, "%r %r, expected %r %r" % (u.tkn0reserve(), u.tkn1reserve(), r0, r1))
        p = raw * dec
        j.true("tvl", abs(u.tvl(astkn0=True) - (r0 + r1 / p)) <= 2 * (tol0 + tol1 / p) and abs(u.tvl() - (r0 * p + r1)) <= 2 * (tol0 * p + tol1), "%r" % u.tvl())
        j.true("tokens", u.tkn0reserve(incltoken=True) == (u.tkn0reserve(), "T0") and u.tkn1reserve(incltoken=True) == (u.tkn1reserve(), "T1")
               and u.tvl(incltoken=True) == (u.tvl(), "T1") and u.tvl(astkn0=True, incltoken=True) == (u.tvl(astkn0=True), "T0") and u.pair == "T0/T1", "")
        from carbon.tools.cpc import ConstantProductCurve as CPC
        if 1 <= abs(tick) and f:
            kw = u.cpc_params(cid="7", descr="d")
            c, e = call(CPC.from_univ3, **kw)
            if j.true("cpc", e is None, "raised %r" % (e,)):
                j.true("cpc", E(c.p, u.p, 1e-6) and abs(c.x_act - r0) <= 1e3 * tol0 and abs(c.y_act - r1) <= 1e3 * tol1 and c.pair == "T0/T1" and c.fee == u.fee,
                       "%r %r %r, expected %r %r %r" % (c.p, c.x_act, c.y_act, u.p, r0, r1))
        # the description from the chain, with addresses instead of tickers
        w, e = call(U3, "T0", "T1", sp, tick, L, str(fee), d0, d1)
        j.true("text and numbers", e is None and w == u and w.p == u.p and w.tickab == u.tickab and w.fee == u.fee, "%r %r" % (w, e))
        known = {k: v for k, v in U3.ADDRDEC.items()}
        for a, b in itertools.permutations(known, 2):
            for names in ((known[a][0], known[b][0]), (a, b)):
                for conv in (str, int):
                    w, e = call(U3.from_dict, dict(token0=names[0], token1=names[1], sqrt_price_q96=conv(sp), tick=conv(tick), liquidity=conv(L)), fee)
                    x, e2 = call(U3, a, b, sp, tick, L, fee, known[a][1], known[b][1])
                    if j.true("from_dict", e is None and e2 is None, "raised %r %r" % (e, e2)):
                        j.true("from_dict", (w.tkn0, w.tkn1, w.sp96, w.tick, w.liquidity, w.fee_const, w.tkn0dec, w.tkn1dec) == (a, b, sp, tick, L, fee, known[a][1], known[b][1])
                               and w.p == x.p and w.papb == x.papb and w.L == x.L and w.tvl() == x.tvl() and w.pair == a + "/" + b, "%r" % (w,))
    for bad in (0, 200, 3001):
        v, e = call(U3, "T0", "T1", str(sp), str(tick), str(L), bad, d0, d1)
        j.true("invalid fee", isinstance(e, AssertionError), "%r %r" % (v, e))


# ---------------------------------------------------------------- H06

from carbon.helpers import pathinterpolation as PIM      # noqa: E402
from carbon.helpers import pathgenerator as PGM          # noqa: E402
import importlib                                         # noqa: E402
PDR = importlib.import_module("carbon.helpers.pdread")
from carbon.helpers import fls as FLS                    # noqa: E402
from carbon.helpers.helpers import listdir               # noqa: E402


class Noise:
    """stands in for numpy's random generator: a given sequence of standard normal values"""

    def __init__(self, z):
        self.z = list(z)

    def take(self, n):
        return np.array([self.z[i % len(self.z)] for i in range(n)])

    def normal(self, loc=0, scale=1, size=None):
        return loc + scale * self.take(size)

    def lognormal(self, mean=0, sigma=1, size=None):
        return np.exp(mean + sigma * self.take(size))


class fixed_noise:
    def __init__(self, z):
        self.z = z

    def __enter__(self):
        self.old = np.random.default_rng
        np.random.default_rng = lambda *a, **k: Noise(self.z)

    def __exit__(self, *a):
        np.random.default_rng = self.old


def h06_items(th):
    for n in range(0, 6 if th else 5):
        for a, b in itertools.product((100, 1, 0.001, 250), repeat=2):
            yield ("bridge", a, b, n)
    for gaps in itertools.product((1, 2, 5, 24), repeat=3):
        for per in (1, 2, 3, 24, 100):
            yield ("interp", gaps, per)
    for N in (1, 2, 5):
        for s0 in (None, 3, 2000):
            for sig in (None, 0.0, 0.8):
                yield ("gen", N, s0, sig)
    for inv in (False, True):
        for col in (None, 0, 1, "ETH/USDC", "x", "A / B"):
            for tk in (False, True):
                for mind in (None, 3):
                    yield ("read", col, inv, tk, mind)
    for i in range(len(DATA)):
        yield ("file", i)
    yield ("list",)


DATA = [("", {}), ("hello {world}\nline", {}), ("x" * 10000, {}), (b"", dict(binary=True)), (bytes(range(256)), dict(binary=True)), ({"a": [1, 2.5, None, "x"]}, dict(json=True)),
        ([], dict(json=True)), ("text", dict(json=True)), ({"a": {"b": [True, False]}}, dict(json=True, compressed=True)), ("hello", dict(compressed=True)), ("h\u00e9llo \u20ac \U0001f600", dict(compressed=True)),
        ({"\u00e9": "\u20ac"}, dict(json=True)), (["\u00e9"], dict(json=True, compressed=True)), ("", dict(compressed=True)),
        (b"\x00\xffbytes", dict(compressed=True)), (b"\x00\xff", dict(compressed=True, binary=True))]


def h06(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    PI = PIM.PathInterpolation
    k = item[0]
    if k == "bridge":
        _, a, b, n = item
        for z in itertools.product((-1, 0, 1.5), repeat=max(1, n)):
            for sig in (0, 0.3):
                with fixed_noise(z):
                    r, e = call(PI.gaussian_bridge, a, b, sig, n)
                if not j.true("bridge", e is None, "raised %r" % (e,)):
                    return
                r = list(r)
                j.true("bridge ends", len(r) == max(2, n + 1) and E(r[0], a) and r[-1] == b, "%r" % r)
                if n:
                    d = [y - x for x, y in zip(r, r[1:])]
                    w = [sqrt(1 / n) * sig * (a + b) / 2 * x for x in z]
                    m = (b - a - sum(w)) / n
                    tol = 1e-9 * (a + b) + 1e-7 * b
                    j.true("bridge increments", all(abs(x - y - m) <= tol for x, y in zip(d, w)), "%r" % r)
    elif k == "interp":
        _, gaps, per = item
        H = pd.Timedelta(hours=1)
        ix = [pd.Timestamp("2020-01-01")]
        for g in gaps:
            ix.append(ix[-1] + g * H)
        v = [100.0, 130.0, 95.0, 120.0]
        path = pd.Series(v, index=ix)
        for z in ((0,), (1, -1, 0.5), (0.3, 2)):
            for kw in (dict(sig=0.5), dict(), dict(sigfctr=0.5), dict(sig=0)):
                with fixed_noise(z):
                    r, e = call(PI.interpolate, path, PI.hours(per), **kw)
                if not j.true("interpolate", e is None, "raised %r" % (e,)):
                    return
                t.add("paths")
                pts = dict(zip(r.index, r))
                j.true("original points", all(x in pts and E(pts[x], y, 1e-9) for x, y in zip(ix, v)), "%r" % (r,))
                j.true("times increase", all(a < b for a, b in zip(r.index, r.index[1:])), "%r" % (r.index,))
                n = [1 if g < per else int(round(g / per)) for g in gaps]
                j.true("number of points", len(r) == sum(n) + 1, "%d, expected %d" % (len(r), sum(n) + 1))
                pos = 0
                for i, g in enumerate(gaps):
                    for q in range(n[i]):
                        if pos < len(r):
                            j.true("sample times", abs((r.index[pos] - ix[i] - q * g * H / n[i]) / H) < 1e-6, "%r" % (r.index,))
                        pos += 1
                if kw.get("sig") == 0:
                    pos = 0
                    for i in range(3):
                        for q in range(n[i]):
                            if pos < len(r):
                                j.true("straight line", E(r.iloc[pos], v[i] + (v[i + 1] - v[i]) * q / n[i], 1e-9), "%r" % (r,))
                            pos += 1
        r = PI.interpolate(path, PI.hours(per), enable=False)
        j.true("disabled", r is path or list(r) == v, "")
        sd, sig = PI.estimate_vol(path)
        T = sum(gaps) / 24 / 365.25
        dv = np.diff(v); dl = np.diff(np.log(v))
        j.true("volatility", E(sd, np.std(dv) / sqrt(T / 3), 1e-9) and E(sig, np.std(dl) / sqrt(T / 3), 1e-9), "%r %r" % (sd, sig))
        j.true("volatility", PI.estimate_vol_np(np.array(v), T)[0] == sd or E(PI.estimate_vol_np(np.array(v), T)[0], sd), "")
        j.true("path time", E(PDR.pathtime_days(path), sum(gaps) / 24) and E(PDR.pathtime_yrs(path), T) and E(PDR.pathtime(path), T), "")
        j.true("durations", PI.days(2) == PI.hours(48) == PI.minutes(48 * 60) == PI.Timedelta(days=2), "")
    elif k == "gen":
        _, N, s0, sig = item
        for mu in (None, 0.1):
            for z in ((0,), (1, -0.5, 2)):
                for time in (None, 2):
                    for sd in (None, (2021, 2, 3), (2020, 12, 31, 13, 30)):
                        gen_case(j, N, s0, sig, mu, z, time, sd)
    elif k == "read":
        read_case(item, j)
    elif k == "file":
        file_case(item[1], j)
    else:
        list_case(j)


def gen_case(j, N, s0, sig, mu, z, time, sd):
    PG = PGM.PathGenerator
    date = sd
    if sd and len(sd) > 3:
        import datetime
        sd = datetime.datetime(*sd)
    g, e = call(PG, mu=mu, sig=sig, s0=s0, time=time, N=N, startdt=sd)
    if not j.true("generator", e is None, "raised %r" % (e,)):
        return
    with fixed_noise(z):
        p, e = call(g.path)
        p2 = g()
    s0_, sg, m, T = 100 if s0 is None else s0, 0.5 if sig is None else sig, mu or 0, time or 1
    dt = T / N
    w = [float(s0_)]
    for i in range(N):
        w.append(w[-1] * math.exp(m * dt - sg * sg * dt / 2 + sg * sqrt(dt) * z[i % len(z)]))
    j.true("path", e is None and len(p) == N + 1 and all(E(a, b, 1e-9) for a, b in zip(p, w)) and list(p2) == list(p), "%r, expected %r" % (p, w))
    d = list(g.datetimes)
    start = pd.Timestamp(*(date or (2020, 1, 1)))
    j.true("dates", len(d) == N + 1 and pd.Timestamp(d[0]) == start and all(abs((pd.Timestamp(x) - start) / pd.Timedelta(days=1) - i * dt * 365.25) < 1e-6 for i, x in enumerate(d)), "%r" % d)
    j.true("times", len(g.times) == N + 1 and all(abs(x - i * dt) < 1e-12 for i, x in enumerate(g.times)), "")
    for n in (1, 2, 3):
        for cn, own in ((None, None), ("q{ix}", None), (None, "z{ix:02d}"), ("q{ix}", "z{ix:02d}")):
            g = PG(mu=mu, sig=sig, s0=s0, time=time, N=N, startdt=sd, colname=own)
            with fixed_noise(z):
                f, e = call(g.pathdf, n, colname=cn)
            if not j.true("table of paths", e is None, "raised %r" % (e,)):
                return
            fmt = cn or own or "p{sig100:03d}-{mu100:02d}-{ix:03d}"
            cols = [fmt.format(sig100=int(sg * 100), mu100=int(m * 100), ix=i) for i in range(n)]
            j.true("columns", list(f.columns) == cols, "%r, expected %r" % (list(f.columns), cols))
            j.true("table of paths", len(f) == N + 1 and all(E(float(a), b, 1e-9) for c in f.columns for a, b in zip(f[c], w))
                   and [pd.Timestamp(x) for x in f.index] == [pd.Timestamp(x) for x in d], "%r" % (f,))


def read_case(item, j):
    _, col, inv, tk, mind = item
    tmp = tempfile.mkdtemp()
    try:
        n = 11
        ix = pd.date_range("2020-01-01", periods=n, freq="2D")
        cols = ["ETH/USDC", "x", "A / B"]
        df = pd.DataFrame({c: [(i + 1) * (k + 2.0) for i in range(n)] for k, c in enumerate(cols)}, index=ix)
        fn = os.path.join(tmp, "d.pickle")
        df.to_pickle(fn)
        D = pd.Timedelta(days=1)
        j.true("columns", list(PDR.pdcols(fn)) == cols, "")
        md = None if mind is None else ix[mind]
        first = ix[0] if md is None else md
        last = ix[-1]
        froms = [{}, dict(from_ts="2019-06-01"), dict(from_ts="2020-01-08"), dict(from_ts=ix[5]), dict(from_pc=0), dict(from_pc=0.5), dict(from_pc=1), dict(from_ts="2021-01-01")]
        pers = [{}, dict(period_days=0), dict(period_days=4), dict(period_days=5), dict(period_days=1000), dict(period_pc=0), dict(period_pc=0.25), dict(period_pc=1)]
        for f in froms:
            for p in pers:
                kw = dict(f, **p)
                start = first if not f else max(first, pd.Timestamp(f["from_ts"])) if "from_ts" in f else first + f["from_pc"] * (last - first)
                end = last if not p else start + p["period_days"] * D if "period_days" in p else start + p["period_pc"] * (last - first)
                keep = [i for i in range(n) if ix[i] >= first and start <= ix[i] <= min(end, last)]
                r, e = call(PDR.pdread, fn, col, min_dt=md, invert=inv, tkns=tk, **kw)
                if col is None and inv:
                    j.true("invert frame", isinstance(e, ValueError), "%r" % (r,))
                    continue
                if not j.true("read", e is None, "%r raised %r" % (kw, e)):
                    continue
                if col is None:
                    j.true("frame", list(r.columns) == cols and list(r.index) == [ix[i] for i in keep] and list(r["x"]) == [(i + 1) * 3.0 for i in keep], "%r" % (r,))
                    continue
                kcol = col if isinstance(col, int) else cols.index(col)
                if tk:
                    r, tkn = r
                    w = ("ETH", "USDC") if col == "ETH/USDC" else ("A", "B") if col == "A / B" else ("RSK", "CSH")
                    j.true("token names", tuple(tkn) == (w[::-1] if inv else w), "%r" % (tkn,))
                w = [(i + 1) * (kcol + 2.0) for i in keep]
                j.true("series", list(r.index) == [ix[i] for i in keep] and all(E(a, 1 / b if inv else b) for a, b in zip(r, w)), "%r %r, expected %r" % (kw, list(r), w))
        for kw in (dict(period_days=1, period_pc=0.5), dict(from_ts="2020-01-05", from_pc=0.5)):
            r, e = call(PDR.pdread, fn, col, **kw)
            j.true("ambiguous", isinstance(e, ValueError), "%r" % (r,))
        for bad in (1.5, ("x",)):
            r, e = call(PDR.pdread, fn, bad)
            j.true("invalid column", isinstance(e, ValueError), "%r" % (r,))
        j.true("file untouched", pd.read_pickle(fn).equals(df), "")
        for s, w in (("ETH/USDC", ("ETH", "USDC")), (" a / b ", ("a", "b")), ("x", ("RSK", "CSH")), ("a/b/c", ("RSK", "CSH"))):
            j.true("tknpair", PDR.tknpair(s) == w and tuple(PDR.tknpair(s, True)) == w[::-1], "")
    finally:
        shutil.rmtree(tmp)


def file_case(i, j):
    data, kw = DATA[i]
    tmp = tempfile.mkdtemp()
    try:
        for other in (None,) + tuple(x for x, k in DATA if k == kw):     # overwriting a file
            if other is not None:
                FLS.fsave(other, "f.dat", tmp, **kw)
            _, e = call(FLS.fsave, data, "f.dat", tmp, **kw)
            if not j.true("save", e is None, "raised %r" % (e,)):
                return
            r, e = call(FLS.fload, "f.dat", tmp, **kw)
            want = data.encode() if isinstance(data, str) and kw.get("compressed") and not kw.get("json") else data
            j.true("load", e is None and (r == want or r == data) and type(r) in (type(want), type(data)), "%r %r, expected %r" % (r, e, want))
            r2, e = call(FLS.fload, os.path.join(tmp, "f.dat"), **kw) if False else call(FLS.fload, "f.dat", path=tmp, quiet=False, **kw)
            j.true("load", r2 == r, "")
        if isinstance(data, str) and not kw:
            for wr in ("<a>{}</a>", FLS.CSSWRAPPER):
                FLS.fsave(data, "w.dat", tmp, wrapper=wr)
                with open(os.path.join(tmp, "w.dat")) as f:
                    s = f.read()
                j.true("wrapper", s == wr.replace("{}", data), "%r" % s)
                r = FLS.fload("f.dat", tmp, wrapper=wr)
                j.true("wrapper", r == wr.replace("{}", data), "%r" % r)
        j.true("join", FLS.join("a", "b", "c") == os.path.join("a", "b", "c"), "")
        _, e = call(FLS.fload, "missing", tmp, **kw)
        j.true("missing file", e is not None, "")
    finally:
        shutil.rmtree(tmp)


def list_case(j):
    names = ["b.pickle", "a.PICKLE", "c.txt", "pickle", "x.pickle.txt", "d.Pickle"]
    for n in range(len(names) + 1):
        for c in itertools.combinations(names, n):
            tmp = tempfile.mkdtemp()
            try:
                for x in c:
                    with open(os.path.join(tmp, x), "w") as f:
                        f.write("")
                j.true("listing", listdir(tmp) == sorted(c), "%r" % (listdir(tmp),))
                for ext in (".pickle", ".PICKLE", ".txt"):
                    w = sorted(x[:-len(ext)] for x in c if x.lower().endswith(ext.lower()))
                    j.true("listing", listdir(tmp, ext) == w, "%r" % (listdir(tmp, ext),))
            finally:
                shutil.rmtree(tmp)


# ---------------------------------------------------------------- H07

import carbon.helpers.cryptocompare as CCM      # noqa: E402


class Reply:
    def __init__(self, ok, data):
        self.ok, self.data, self.status_code = ok, data, 200 if ok else 500

    def __bool__(self):
        return self.ok

    def json(self):
        return self.data


class Web:
    """stands in for the web service: answers with a running number, or fails"""

    def __init__(self):
        self.n, self.up, self.log = 0, True, []

    def get(self, url, params=None):
        self.log.append((url, dict(params or {})))
        self.n += 1
        return Reply(self.up, {"Data": {"n": self.n, "url": url}})


class web:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.old = CCM._requests
        CCM._requests = self.w
        return self.w

    def __exit__(self, *a):
        CCM._requests = self.old


EP = dict(allexchanges="/data/v4/all/exchanges", coinlist="/data/all/coinlist", indexlist="/data/index/list")
COPS = [("get", "coinlist", True, False), ("get", "coinlist", True, True), ("get", "coinlist", False, False), ("get", "coinlist", False, True),
        ("get", "indexlist", True, True), ("get", "allexchanges", True, True), ("get", "coinlist", None, None),
        ("toggle",), ("delete", "coinlist"), ("corrupt", "coinlist"), ("write", "coinlist"), ("cache", "coinlist"), ("query", "coinlist")]


def h07_items(th):
    d = 4 if th else 3
    for roe in (True, False):
        for a in range(len(COPS)):
            for b in range(len(COPS)):
                yield ("hist", roe, a, b, d)
    for freq in ("day", "hour", "minute", "week"):
        yield ("freq", freq)
    for i in range(len(PAIRSETS)):
        yield ("aggr", i)
    yield ("misc",)


PAIRSETS = ["ETH/USD", "ETH/USD, BTC/USD", "BTC/ETH, ETH/USD, LINK/USD", (("ETH", "USD"), ("USD", "ETH"))]


def h07(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "hist":
        _, roe, a, b, d = item
        for n in range(0, d - 1):
            for rest in itertools.product(range(len(COPS)), repeat=n):
                t.add("histories")
                hist07(J(t, [item[0], roe, (a, b) + rest]), roe, (a, b) + rest)
    elif item[0] == "freq":
        freq_case(item[1], j)
    elif item[0] == "aggr":
        aggr_case(PAIRSETS[item[1]], j)
    else:
        misc_case(j)


def hist07(j, roe, seq):
    tmp = tempfile.mkdtemp()
    w = Web()
    try:
        with web(w):
            cc = CCM.CryptoCompare(apikey="secret", raiseonerror=roe)
            cc.DATAPATH = tmp
            disk = {}                   # item -> content ("bad": unreadable)
            for k in seq:
                op = COPS[k]
                if op[0] == "toggle":
                    w.up = not w.up
                elif op[0] in ("delete", "corrupt"):
                    fn = os.path.join(tmp, "query_%s.pickle" % op[1])
                    if op[0] == "delete":
                        if os.path.exists(fn):
                            os.remove(fn)
                        disk.pop(op[1], None)
                    else:
                        with open(fn, "wb") as f:
                            f.write(b"\x80")
                        disk[op[1]] = "bad"
                elif op[0] == "write":
                    r, e = call(cc.write_cache, "query_" + op[1], {"mine": len(seq)})
                    j.true("write", e is None and r == "query_" + op[1], "%r %r" % (r, e))
                    disk[op[1]] = {"mine": len(seq)}
                elif op[0] == "cache":
                    r, e = call(cc.cache, "query_" + op[1])
                    if op[1] in disk and disk[op[1]] != "bad":
                        j.true("cache", e is None and r == disk[op[1]], "%r %r" % (r, e))
                    else:
                        j.true("cache miss", (e is not None) if roe else (e is None and r is None), "%r %r" % (r, e))
                elif op[0] == "query":
                    n0 = w.n
                    r, e = call(getattr(cc, "query_" + op[1]))
                    judge_query(j, w, n0, op[1], r, e, roe)
                else:
                    _, nm, rf, uf = op
                    n0 = w.n
                    f = getattr(cc, "cache_" + nm)
                    r, e = call(f) if rf is None else call(f, readonfail=rf, updateonfail=uf)
                    if rf is None:
                        rf, uf = True, False
                    if nm in disk and disk[nm] != "bad":
                        j.true("cached", e is None and r == disk[nm] and w.n == n0, "%r %r after %d queries" % (r, e, w.n - n0))
                    elif rf or uf:
                        judge_query(j, w, n0, nm, r, e, roe)
                        if w.up and uf:
                            disk[nm] = {"n": w.n, "url": cc.BASEURL + EP[nm]}
                    else:
                        j.true("not read", w.n == n0 and ((e is not None) if roe else (e is None and r is None)), "%r %r after %d queries" % (r, e, w.n - n0))
                for nm in EP:
                    fn = os.path.join(tmp, "query_%s.pickle" % nm)
                    if nm not in disk:
                        j.true("no cache file", not os.path.exists(fn), "%s after %r" % (nm, op))
                    elif disk[nm] != "bad":
                        try:
                            with open(fn, "rb") as f:
                                c = pickle.load(f)
                        except Exception as e:
                            c = e
                        j.true("cache file", c == disk[nm], "%s after %r: %r, expected %r" % (nm, op, c, disk[nm]))
    finally:
        shutil.rmtree(tmp)


def judge_query(j, w, n0, nm, r, e, roe):
    j.true("one query", w.n == n0 + 1 and w.log[-1] == (CCM.CryptoCompare.BASEURL + EP[nm], {"api_key": "secret"}), "%r" % (w.log[n0:],))
    if w.up:
        j.true("answer", e is None and r == {"n": w.n, "url": CCM.CryptoCompare.BASEURL + EP[nm]}, "%r %r" % (r, e))
    else:
        j.true("failed query", isinstance(e, RuntimeError) if roe else (e is None and r is None), "%r %r" % (r, e))


class Prices(Web):
    def __init__(self, err=False):
        Web.__init__(self)
        self.err = err

    def price(self, f, t_, i, field):
        return (len(f) * 10 + ord(f[0]) + ord(t_[-1]) / 100.0) * (i + 1) + dict(open=0, close=0.1, high=0.2, low=0.3)[field]

    def get(self, url, params=None):
        Web.get(self, url, params)
        if not self.up:
            return Reply(False, {})
        if self.err:
            return Reply(True, {"Response": "Error", "Message": "x"})
        rows = [dict(time=1577836800 + 86400 * i, volumefrom=i, volumeto=2 * i, conversionType="direct", conversionSymbol="",
                     **{f: self.price(params["fsym"], params["tsym"], i, f) for f in ("open", "close", "high", "low")}) for i in range(3)]
        return Reply(True, {"Response": "Success", "Data": {"Data": rows, "k": 1}})


IX = list(pd.date_range("2020-01-01", periods=3))
FIELDS = ["open", "close", "high", "low", "volumefrom", "volumeto"]


def freq_case(freq, j):
    CC = CCM.CryptoCompare
    for roe in (True, False):
        for key in ("k", True):
            cc = CC(apikey=key, raiseonerror=roe)
            for tsym in (None, "ETH"):
                for lim in (False, 10, 0):
                    for to in (None, 1452680400, "2016-01-13 11:00", pd.Timestamp("2016-01-13 11:00")):
                        for ex in (None, "CCCAGG"):
                            with web(Prices()) as w:
                                r, e = call(cc.query_freqlypair, freq, "BTC", tsym, ex, lim, to)
                                if freq == "week":
                                    j.true("unknown frequency", isinstance(e, ValueError) and w.n == 0, "%r" % (r,))
                                    continue
                                if not j.true("query", e is None, "raised %r" % (e,)):
                                    continue
                                p = dict(fsym="BTC", tsym=tsym or "usd", limit=2000 if lim is False else lim)
                                if ex:
                                    p["e"] = ex
                                if to is not None:
                                    p["toTs"] = to if isinstance(to, int) else int((pd.Timestamp(to) - pd.Timestamp(0)) / pd.Timedelta(seconds=1))
                                if key is not True:
                                    p["api_key"] = key
                                j.true("query", w.log == [(CC.BASEURL + "/data/v2/histo" + freq, p)], "%r, expected %r" % (w.log, p))
                                j.true("prices", list(r.columns) == FIELDS and list(r.index) == IX and all(
                                    r[f].iloc[i] == w.price("BTC", tsym or "usd", i, f) for f in FIELDS[:4] for i in range(3)), "%r" % (r,))
            if freq == "week":
                continue
            alias = dict(day=cc.query_dailypair, hour=cc.query_hourlypair, minute=cc.query_minutelypair)[freq]
            with web(Prices()) as w:
                r, e = call(alias, fsym="BTC", tsym="usd")
                j.true("alias", e is None and len(r) == 3 and w.log[0][0].endswith("histo" + freq), "%r %r" % (r, e))
                r, e = call(alias, fsym="BTC", tsym="usd", aspandas=False)
                j.true("raw answer", e is None and r["k"] == 1 and len(r["Data"]) == 3, "%r %r" % (r, e))
            for bad in (Prices(err=True), Prices()):
                if not bad.err:
                    bad.up = False
                with web(bad):
                    r, e = call(alias, fsym="BTC")
                    j.true("failed query", isinstance(e, RuntimeError) if roe else (e is None and r is None), "%r %r" % (r, e))


def aggr_case(pairs, j):
    cc = CCM.CryptoCompare(apikey=True)
    plist = [tuple(p.strip().split("/")) for p in pairs.split(",")] if isinstance(pairs, str) else [tuple(p) for p in pairs]
    names = ["%s/%s" % p for p in plist]
    for fields in (None, "close", "open, low", ("high", "close")):
        fl = ["close"] if fields is None else [f.strip() for f in fields.split(",")] if isinstance(fields, str) else list(fields)
        for raw, rawaggr, grand in itertools.product((True, False), repeat=3):
            for freq, kw in ((None, {}), ("hour", dict(limit=5, e="X"))):
                with web(Prices()) as w:
                    r, e = call(cc.aggr_query, pairs, fields, raw, rawaggr, grand, freq, **kw)
                if not j.true("aggregate query", e is None, "raised %r" % (e,)):
                    continue
                j.true("queries", len(w.log) == len(plist) and all(
                    l == (cc.BASEURL + "/data/v2/histo" + (freq or "day"), dict(fsym=p[0], tsym=p[1], limit=kw.get("limit", 2000), **({"e": "X"} if kw else {})))
                    for l, p in zip(w.log, plist)), "%r" % (w.log,))
                j.true("raw", (list(r["raw"]) == names and all(len(x) == 3 for x in r["raw"].values())) if raw else r["raw"] is None, "%r" % (r["raw"],))
                j.true("raw aggregate", (r["rawaggr"] is not None and len(r["rawaggr"].columns) == 6 * len(plist)) if rawaggr else r["rawaggr"] is None, "")
                if raw and rawaggr:
                    for n in names:
                        j.true("raw aggregate", r["rawaggr"][n].equals(r["raw"][n]), "%s" % n)
                j.true("fields", list(r["aggr"]) == fl, "%r" % (r["aggr"],))
                for f in fl:
                    a = r["aggr"][f]
                    cols = [(f, n) for n in names] if grand else names
                    j.true("columns", list(a.columns) == cols, "%r, expected %r" % (list(a.columns), cols))
                    for c, p in zip(cols, plist):
                        if c in list(a.columns):
                            j.true("values", [float(x) for x in a[c]] == [w.price(p[0], p[1], i, f) for i in range(3)], "%r" % (a,))
                if grand:
                    j.true("grand aggregate", list(r["gaggr"].columns) == [(f, n) for f in fl for n in names], "%r" % (r["gaggr"],))
                    for f in fl:
                        for n, p in zip(names, plist):
                            j.true("grand aggregate", [float(x) for x in r["gaggr"][(f, n)]] == [w.price(p[0], p[1], i, f) for i in range(3)], "")
                else:
                    j.true("grand aggregate", r["gaggr"] is None, "")


def misc_case(j):
    CC = CCM.CryptoCompare
    import hashlib
    cc = CC(apikey="abc")
    j.true("digest", cc.keydigest == hashlib.sha1(b"abc").hexdigest() and CC(apikey=True).keydigest == "0" * 40, "")
    for bad in (5, False, 0.5):
        v, e = call(CC, apikey=bad)
        j.true("invalid key", isinstance(e, ValueError), "%r" % bad)
    old = os.environ.pop("CCAPIKEY", None)
    try:
        v, e = call(CC)
        j.true("missing key", isinstance(e, RuntimeError), "%r" % (v,))
        os.environ["MC_TEST_KEY"] = "k1"
        v, e = call(CC, apikeyname="MC_TEST_KEY")
        j.true("key of the environment", e is None and v.apikey == "k1", "%r" % (e,))
        os.environ["CCAPIKEY"] = "k2"
        v, e = call(CC)
        j.true("key of the environment", e is None and v.apikey == "k2", "%r" % (e,))
    finally:
        os.environ.pop("MC_TEST_KEY", None); os.environ.pop("CCAPIKEY", None)
        if old is not None:
            os.environ["CCAPIKEY"] = old
    for m in ("POST", "PUT"):
        with web(Web()) as w:
            v, e = call(cc.query, "/x", None, m)
            j.true("method", isinstance(e, ValueError) and w.n == 0, "%r" % (v,))
    with web(Web()) as w:
        v, e = call(cc.query, "/x", dict(a=1, b=None, c=0))
        j.true("parameters", e is None and w.log == [(CC.BASEURL + "/x", dict(a=1, c=0, api_key="abc"))], "%r" % (w.log,))
        v, e = call(cc.query_ratelimit)
        j.true("rate limit", e is None and w.log[-1][0] == CC.BASEURL + "/stats/rate/limit", "")
    for ts, n in (("2020-01-01", 1577836800), ("1970-01-01", 0), ("2023-06-01 12:34:56", 1685622896)):
        j.true("timestamps", CC.ts_tocc(ts) == n and CC.ts_fromcc(n) == pd.Timestamp(ts) and CC.ts_tocc(CC.ts_fromcc(n)) == n, "%r" % ts)
    codes = CC.unjoin(cc.ccycodes())
    j.true("currency codes", len(codes) == len(set(codes)) == 179 - 0 or len(codes) > 150 and all(len(c) == 3 and c.isupper() for c in codes) and "USD" in codes and "EUR" in codes, "%d" % len(codes))
    for tpl in ((), ("a",), ("a", "b", "c"), (1, 2)):
        for sep in (None, ";", " | "):
            s = CC.join(tpl, sep=sep)
            if tpl:
                j.true("join", CC.unjoin(s, sep=sep if sep is None else sep.strip()) == tuple(str(x) for x in tpl), "%r" % s)
    j.true("unjoin", CC.unjoin("1, 2,3", filter=int) == (1, 2, 3), "")
    T = ("A", "B", "C")
    for n in range(1, 4):
        for m in range(0, 4):
            c, q = T[:n], ("B", "D", "A")[:m] if m else None
            w = tuple((x, y) for y in (q or c) for x in c if x != y)
            for a, b in ((c, q), (", ".join(c), None if q is None else ",".join(q))):
                r = CC.create_pairs(a, b)
                j.true("create_pairs", tuple(tuple(x) for x in r) == w, "%r, expected %r" % (r, w))
    for p in (("A", "B"), ("xy", "zw")):
        j.true("pair tuple", tuple(CC.pt_from_pair("/".join(p))) == p and CC.pair_from_pt(p) == "/".join(p) and CC.pt_from_pair("/".join(p)).tknq == p[1], "")
    j.true("coinlist", CC.coinlist("a, b") == ("a", "b") and CC.coinlist(["x"]) == ["x"] and tuple(CC.coinlist("A/B,C/D", aspt=True)) == (("A", "B"), ("C", "D")), "")


BOUNDS = {
    "H01": "strategies by 3 (5) mids x 4 gaps x 9 widths x 14 utilizations, 324 pairs of ranges, 288 uniswap ranges, 168 records; rescaling by 12 factors, values for 4 spots x 4 ratios",
    "H02": "10 portfolios x all price paths of 3 (4) steps over 5 price levels; 3 portfolios x shifts and price scales x all paths of 3 steps over 3 levels",
    "H03": "7 starting objects x all histories of 3 (4) operations from an alphabet of 28",
    "H04": "all operations on 10 x 10 values, all histories of 2 (3) in-place operations",
    "H05": "integers around all powers of two up to 2^305 and their 45 most significant bits; floats over 100 binary orders; 84 x 84 versions; 4 x 4 decimals x 4 fees x 9 ticks x 3 positions; 100 token pairs",
    "H06": "bridges of up to 4 (5) segments with all noise sequences over 3 values; 64 time grids x 5 sample periods; generators; all selections of data files; 12 kinds of file contents",
    "H07": "all histories of 3 (4) operations from an alphabet of 13 on cache and web service, with and without raiseonerror; all queries over the grid of arguments",
    "H08": "all managers with up to 3 choices, all initial values, objects, disabled flags and ranges; all assignments of the widgets",
}


# ---------------------------------------------------------------- H08

def h08_items(th):
    for n in (1, 2, 3):
        for asd in (False, True):
            for init in itertools.product((True, False), repeat=n):
                yield ("check", n, asd, init)
            for v in (None, 0, 0.3, 1, (0.5, 0.25, 1), (0, 1, 0.1)):
                for mode in (None, "pm", "pmt", "range", "ranges"):
                    yield ("slider", n, asd, v, mode)
            for v in ((1.5, -2.5, 1), (2, 3, 0.5), (0, -3, 0)):
                yield ("slider", n, asd, v, "ranges")
            yield ("drop", n, asd)
    yield ("badw",)


def h08(item, t):
    from carbon.helpers import widgets as W
    j = J(t, list(item))
    t.seen("states", repr(item))
    ids = ("1", "x", "3")
    desc = ("one", "two", "three")
    if item[0] == "check":
        _, n, asd, init = item
        ch = dict(zip((1, "x", 3)[:n], desc)) if asd else [1, "x", 3][:n]
        ds = desc[:n] if asd else ids[:n]
        for dis in [None] + list(itertools.product((True, False), repeat=n)):
            for obj in (None, tuple({"o": i} for i in range(n))):
                for vals in {"t": [tuple(init), [int(x) for x in init]], }["t"] + ([None, False] if not any(init) else []) + ([True] if all(init) else []):
                    m, e = call(W.CheckboxManager, ch, vals, obj, dis)
                    if not j.true("checkboxes", e is None, "raised %r" % (e,)):
                        continue
                    judge_check(j, m, ids[:n], ds, list(init), obj if obj else ds, dis or (False,) * n)
                    for new in itertools.product((True, False), repeat=n):
                        for cb, v in zip(m.checkboxes, new):
                            cb.value = v
                        judge_check(j, m, ids[:n], ds, list(new), obj if obj else ds, dis or (False,) * n)
        m = W.CheckboxManager.from_idvdct(dict(zip(ids[:n], init)))
        judge_check(j, m, ids[:n], ids[:n], list(init), ids[:n], (False,) * n)
        for bad in (dict(values=(True,) * (n + 1)), dict(values=()), dict(objects=(1,) * (n + 1)), dict(disabled=(True,) * (n + 1))):
            m, e = call(W.CheckboxManager, ch, **bad)
            j.true("lengths", isinstance(e, ValueError), "%r" % (bad,))
    elif item[0] == "slider":
        _, n, asd, v, mode = item
        ch = dict(zip((1, "x", 3)[:n], desc)) if asd else [1, "x", 3][:n]
        kw = dict(pm=dict(pm=True), pmt=dict(pm=(1, 0, True)[:n]), range=dict(range=(0, 2)), ranges=dict(range=((0, 2), (-3, 3), (0, 1))[:n])).get(mode, {})
        rg = dict(pm=[(-1, 1)] * n, pmt=[(-1, 1), (0, 1), (-1, 1)][:n], range=[(0, 2)] * n, ranges=[(0, 2), (-3, 3), (0, 1)][:n]).get(mode, [(0, 1)] * n)
        vv = v[:n] if isinstance(v, tuple) else v
        m, e = call(W.PcSliderManager, ch, vv, **kw)
        if not j.true("sliders", e is None, "raised %r" % (e,)):
            return
        w = [0.0] * n if v is None else [float(v)] * n if not isinstance(v, tuple) else list(vv)
        j.true("slider values", all(abs(a - b) < 1e-9 for a, b in zip(m.values, w)) and len(m.values) == n, "%r, expected %r" % (m.values, w))
        j.true("slider ids", m.choice_ids == ids[:n] and m.choice_descr == (desc[:n] if asd else ids[:n]) and list(m.values_dct) == list(ids[:n])
               and tuple(m.values_dct.values()) == m.values, "")
        j.true("slider ranges", [(s.min, s.max) for s in m.sliders] == [(100 * a, 100 * b) for a, b in rg], "%r" % ([(s.min, s.max) for s in m.sliders],))
        j.true("slider description", tuple(s.description for s in m.sliders) == m.choice_descr and not any(s.disabled for s in m.sliders), "")
        for k, s in enumerate(m.sliders):
            for x in (rg[k][0], rg[k][1], 0.5):
                s.value = 100 * x
                w[k] = x
                j.true("slider values", all(abs(a - b) < 1e-9 for a, b in zip(m.values, w)), "%r, expected %r" % (m.values, w))
        for dis in itertools.product((True, False), repeat=n):
            m = W.PcSliderManager(ch, vv, disabled=dis, **kw)
            j.true("slider disabled", m.disabled == dis and tuple(s.disabled for s in m.sliders) == dis, "")
        for bad in (dict(values=(0.5,) * (n + 1)), dict(values=1.5), dict(disabled=(True,) * (n + 1)), dict(pm=True, range=(0, 1)), dict(pm=(True,) * (n + 1)), dict(values=-0.5)):
            m, e = call(W.PcSliderManager, ch, **bad)
            j.true("slider arguments", isinstance(e, ValueError), "%r" % (bad,))
        for k in (1, 2, 3, 4):
            if k != n:
                m, e = call(W.PcSliderManager, ch, vv, range=((0, 1),) * k)
                j.true("slider ranges of the wrong length", e is not None, "%d ranges for %d sliders" % (k, n))
    elif item[0] == "drop":
        _, n, asd = item
        ch = dict(zip((1, "x", 3)[:n], desc)) if asd else [1, "x", 3][:n]
        for labels in (None, desc[:n]):
            if asd and labels:
                m, e = call(W.DropdownManager, ch, labels)
                j.true("labels twice", isinstance(e, ValueError), "")
                continue
            lb = desc[:n] if asd or labels else ids[:n]
            for k in [None] + list(range(n)):
                for kw in ([{}] if k is None else [dict(defaultix=k), dict(defaultval=ids[k])]):
                    m, e = call(W.DropdownManager, ch, labels, descr="d", **kw)
                    if not j.true("dropdown", e is None, "raised %r" % (e,)):
                        continue
                    cur = k or 0
                    j.true("dropdown", m.options == ids[:n] and m.labels == lb and m.descr == "d" and m.result == (ids[cur], lb[cur]) and (m.value, m.label) == m.result, "%r" % (m.result,))
                    for q in range(n):
                        m.dropdown.value = ids[q]
                        j.true("dropdown choice", m.result == (ids[q], lb[q]), "%r" % (m.result,))
        if not asd:
            for bad in (desc[:n - 1], desc[:n] + ("four",)):
                for kw in ({}, dict(defaultix=0), dict(defaultval=ids[0])):
                    m, e = call(W.DropdownManager, ch, bad, **kw)
                    j.true("labels of the wrong length", isinstance(e, ValueError), "%r: %r" % (bad, e))
        m, e = call(W.DropdownManager, ch, defaultix=0, defaultval="1")
        j.true("default twice", isinstance(e, ValueError), "")
        for bad in (-1, n, n + 3):
            m, e = call(W.DropdownManager, ch, defaultix=bad)
            j.true("default out of range", e is not None, "%r" % bad)


def judge_check(j, m, ids, ds, vals, objs, dis):
    j.true("checkbox ids", m.choice_ids == ids and m.choice_descr == tuple(ds), "%r %r" % (m.choice_ids, m.choice_descr))
    j.true("checkbox values", m.values == tuple(vals) and m.values_dct == dict(zip(ids, vals)), "%r, expected %r" % (m.values, vals))
    j.true("checked", m.checked == tuple(i for i, v in zip(ids, vals) if v) and m.unchecked == tuple(i for i, v in zip(ids, vals) if not v), "%r %r" % (m.checked, m.unchecked))
    j.true("objects", m.objects() == tuple(o for o, v in zip(objs, vals) if v) and m.objects(checked=False) == tuple(o for o, v in zip(objs, vals) if not v), "%r" % (m.objects(),))
    j.true("disabled", m.disabled == tuple(dis) and tuple(c.disabled for c in m.checkboxes) == tuple(dis) and tuple(c.description for c in m.checkboxes) == tuple(ds), "")


FN = {"H%02d" % i: globals()["h%02d" % i] for i in range(1, 9)}
ITEMS = {"H%02d" % i: globals()["h%02d_items" % i] for i in range(1, 9)}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=max(tally.n.get("histories", 0), len(tally.sets.get("states", ())) or len(it)), transitions=tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = case["case"]
    if pid == "H03":
        return hist03(J(t, c), c[0], tuple(c[1]))
    if pid == "H07" and c[0] == "hist" and len(c) == 3:
        return hist07(J(t, c), c[1], tuple(c[2]))
    FN[pid](_tup(c), t)
