"""Order book analytics: simulated trades and prices, order book data, approximate liquidity, vector helpers.
Books, trade sizes and vectors are enumerated; the oracle is the reference curve and the definitions."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import core, ref
from mc.core import call
from mc.oui import J
from carbon import CarbonSimulatorUI, CarbonPair, CarbonOrderUI, analytics as AL
from carbon.simulators import sim_analytics as SA

A = SA.Analytics
OB = SA.OrderBook


def E(a, b, rel=1e-9, abs_=1e-12):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def vs(v):
    """a vector as list, NaN as None"""
    return [None if x is None or x != x else float(x) for x in v]


def same(a, b, rel=1e-9, abs_=1e-12):
    a, b = vs(a), vs(b)
    return len(a) == len(b) and all((x is None) == (y is None) and (x is None or E(x, y, rel, abs_)) for x, y in zip(a, b))


# ---------------------------------------------------------------- A01

ORD = {"s1": ("ETH", 10, 2000, 3000), "s2": ("ETH", 5, 2500, 2700), "s3": ("ETH", 4, 2222, 2222), "b1": ("USDC", 10000, 1500, 500), "b2": ("USDC", 8000, 1200, 1000), "b3": ("USDC", 3000, 1411, 1411)}
BOOKS = [c for n in range(0, 3) for c in itertools.combinations(("s1", "s2", "s3"), n)]
BUYS = [c for n in range(0, 3) for c in itertools.combinations(("b1", "b2", "b3"), n)]


def a01_items(th):
    for s in BOOKS:
        for b in BUYS:
            if not th and len(s) + len(b) > 3:
                continue
            for roe in (True, False):
                yield ("mkt", s, b, roe)


def a01(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    _, sells, buys, roe = item
    with core.quiet():
        market(j, t, sells, buys, roe)


def mksim(orders, pair, roe, matcher=None):
    s = CarbonSimulatorUI(pair=pair, raiseonerror=roe, verbose=False)
    for o in orders:
        tkn, amt, p0, p1 = ORD[o]
        s.add_order(tkn, amt, p0, p1, pair="ETH/USDC")
    return s


def rcurves(orders):
    out = []
    for o in orders:
        tkn, amt, p0, p1 = ORD[o]
        pa, pb = (1 / p0, 1 / p1) if tkn == "ETH" else (p0, p1)
        out.append(ref.Curve(amt, amt, pa, pb))
    return out


def market(j, t, sells, buys, roe):
    P = CarbonPair("ETH/USDC")
    sim = mksim(sells + buys, P, roe)
    nopair = mksim(sells + buys, None, roe)
    before = repr(sim.state()["orders"].to_dict())
    other = CarbonSimulatorUI(pair=CarbonPair("BNT/DAI"), raiseonerror=roe, verbose=False)
    other.add_order("BNT", 1000, 1, 2)
    CA = A(sim)
    sc, bc = rcurves(sells), rcurves(buys)
    cap_s = sum(c.y for c in sc)
    cap_b = sum(c.max_dx() for c in bc)          # most ETH the buy orders can take
    for side, cs, cap in (("sell", sc, cap_s), ("buy", bc, cap_b)):
        consts = (A.AMM_SELLS_BASETOKEN, A.ASK) if side == "sell" else (A.AMM_BUYS_BASETOKEN, A.BID)
        books = (A.ASK_BOOK, A.ASK, A.OFFER, A.OFFER_BOOK) if side == "sell" else (A.BID_BOOK, A.BID)
        ff = [0.001, 0.25, 0.5, 0.9, 0.999, 1.5, 10] if cap else [1]
        for f in ff:
            size = f * (cap or 1)
            t.add("trades")
            sim, nopair = mksim(sells + buys, P, roe), mksim(sells + buys, None, roe)
            CA = A(sim)
            ok = bool(cap) and f < 1
            want = price = None
            if ok:
                outs, ins = ref.optimum([c.copy() for c in cs], size, side == "sell")
                want = sum(ins) if side == "sell" else sum(outs)
                price = want / size
            ways = [("default", CA, {}), ("pair", CA, dict(carbon_pair=P)), ("sim", A(), dict(sim=sim)), ("sim and pair", A(), dict(sim=nopair, carbon_pair=P)),
                    ("other default", A(other), dict(sim=sim)), ("verbose", A(sim, verbose=True), {})]
            for tag, ca, kw in ways:
                for c in consts if f in (0.5, 1.5) else consts[:1] if tag == "default" else ():
                    v, e = call(ca.simulate_trades, size, c, **kw)
                    if ok:
                        j.true("simulated trade", e is None and v is not None and E(v, want, 1e-6, 1e-8), "%s %s %s: %r %r, expected %r" % (side, tag, f, v, e, want))
                    else:
                        j.true("no liquidity", e is None and v is None, "%s %s %s: %r %r" % (side, tag, f, v, e))
            ways = [("default", CA, {}), ("token", CA, dict(tkn="ETH")), ("pair", CA, dict(pair="ETH/USDC")), ("sim", A(), dict(sim=sim)), ("other", A(other), dict(sim=sim)),
                    ("all", A(), dict(sim=nopair, tkn="ETH", pair="ETH/USDC"))]
            for tag, ca, kw in ways:
                for c in books if f in (0.5, 1.5) else books[:1] if tag == "default" else ():
                    v, e = call(ca.effective_price, size, c, **kw)
                    w = price if ok else (0 if side == "sell" else A.MAXPRICE)
                    j.true("effective price", e is None and v is not None and E(v, w, 1e-5), "%s %s %s: %r %r, expected %r" % (side, tag, f, v, e, w))
            j.true("trades are not executed", repr(sim.state()["orders"].to_dict()) == before, "")
            # other pairs in the same simulator, one of them its default: the pair of the call decides
            for d in (("ETH/WBTC", "LINK/USDC") if roe else (None,)) if f in (0.5, 1.5) else ():
                sm = mksim(sells + buys, d and CarbonPair(d), roe)
                for p, k in (("ETH/WBTC", 1 / 16000), ("LINK/USDC", 1 / 250)):
                    for o in ("s1", "b1"):
                        tk, am, p0, p1 = ORD[o]
                        b, q = p.split("/")
                        sm.add_order(b if tk == "ETH" else q, 3 * am, p0 * k, p1 * k, pair=p)
                b4 = repr(sm.state()["orders"].to_dict())
                for ca, kw in ((A(sm), {}),) if f == 0.5 else ((A(other), dict(sim=sm)),):
                    v, e = call(ca.simulate_trades, size, consts[0], carbon_pair=P, **kw)
                    j.true("simulated trade of a given pair", e is None and (v is not None and E(v, want, 1e-6, 1e-8) if ok else v is None), "%s %s %s: %r %r, expected %r" % (side, d, f, v, e, want))
                    for c in books[:1]:
                        v, e = call(ca.effective_price, size, c, tkn="ETH", pair="ETH/USDC", **kw)
                        w = price if ok else (0 if side == "sell" else A.MAXPRICE)
                        j.true("effective price of a given pair", e is None and v is not None and E(v, w, 1e-5), "%s %s %s: %r %r, expected %r" % (side, d, f, v, e, w))
                j.true("trades are not executed", repr(sm.state()["orders"].to_dict()) == b4, "")
        sim = mksim(sells + buys, P, roe)
        CA = A(sim)
        # the book of the other token: sizes in USDC
        for c, f in ((A.ASK_BOOK, 0.5), (A.BID_BOOK, 0.5)):
            if c == A.ASK_BOOK and bc:
                amt = f * sum(x.y for x in bc)
                outs, ins = ref.optimum([x.copy() for x in bc], amt, True)
                w = amt / sum(ins)
            elif c == A.BID_BOOK and sc:
                amt = f * sum(x.max_dx() for x in sc)
                outs, ins = ref.optimum([x.copy() for x in sc], amt, False)
                w = amt / sum(outs)
            else:
                continue
            v, e = call(CA.effective_price, amt, c, tkn="USDC")
            j.true("effective price of quote token", e is None and E(v, w, 1e-5), "%r %r, expected %r" % (v, e, w))
        # order book from these trades
        if cap:
            n = 6
            sizes = A.linspace0(cap, n)
            amts = [CA.simulate_trades(x, consts[0]) for x in list(sizes)] + [CA.simulate_trades(2 * cap, consts[0])]
            xs = list(sizes) + [2 * cap]
            ob = OB(xs, amts, "ETH", "USDC", bidask=OB.ASK if side == "sell" else OB.BID)
            judge_book(j, ob, list(sizes), amts[:-1], "ETH", "USDC", side == "buy")
            mp = list(ob.marg_prices)
            up = [b - a for a, b in zip(mp, mp[1:])]
            j.true("marginal prices move against the trader", all((d >= -1e-4) if side == "sell" else (d <= 1e-4) for d in up), "%r" % (mp,))
    # arguments
    for c in ("x", None, "amm_sell"):
        v, e = call(CA.simulate_trades, 1, c)
        j.true("invalid side", isinstance(e, ValueError), "%r %r" % (v, e))
        v, e = call(CA.effective_price, 1, c)
        j.true("invalid side", isinstance(e, ValueError), "%r %r" % (v, e))
    for f, a in ((A().simulate_trades, {}), (A(nopair).simulate_trades, {}), (A(sim).simulate_trades, dict(sim=nopair)), (CA.simulate_trades, dict(carbon_pair="ETH/USDC")),
                 (A().effective_price, {}), (A().effective_price, dict(tkn="ETH")), (A(nopair).effective_price, {})):
        v, e = call(f, 1, A.ASK, **a)
        j.true("missing arguments", isinstance(e, ValueError), "%r: %r %r" % (a, v, e))
    j.true("trades are not executed", repr(sim.state()["orders"].to_dict()) == before, "")


# ---------------------------------------------------------------- A02: order book data

def judge_book(j, ob, src, trg, ts, tt, rev):
    """src, trg: the points that should be on the book"""
    n = len(src)
    j.true("amounts", same(ob.src_amounts, src) and same(ob.trg_amounts, trg), "%r %r, expected %r %r" % (vs(ob.src_amounts), vs(ob.trg_amounts), src, trg))
    q = lambda a, b: None if a is None or b is None or b == 0 else a / b
    dif = lambda v: [None if a is None or b is None else b - a for a, b in zip(v, v[1:])]
    mid = lambda v: [None if a is None or b is None else (a + b) / 2 for a, b in zip(v, v[1:])]
    # differences against the previous point; pandas keeps numbers by position
    dsrc, dtrg = dif(src), dif(trg)
    j.true("marginal amounts", same(ob.marg_src_amounts, dsrc) and same(ob.marg_trg_amounts, dtrg), "%r %r" % (vs(ob.marg_src_amounts), vs(ob.marg_trg_amounts)))
    pr = [q(b, a) for a, b in zip(src, trg)]
    mp = [q(b, a) for a, b in zip(dsrc, dtrg)]
    inv = lambda v: [q(1.0, x) for x in v]
    ok = all(x is not None and x > 0 for x in pr + mp)
    if not ok:
        return
    j.true("prices", same(ob.prices, pr) and same(ob.pricesr(), inv(pr)) and same(ob.pricesr(False), pr), "%r, expected %r" % (vs(ob.prices), pr))
    j.true("marginal prices", same(ob.marg_prices, mp) and same(ob.marg_pricesr(), inv(mp)) and same(ob.marg_pricesr(False), mp), "%r, expected %r" % (vs(ob.marg_prices), mp))
    dm = [-x if rev else x for x in dif(mp)]
    j.true("marginal price steps", same(ob.dmarg_prices, dm, 1e-9, 1e-9), "%r, expected %r" % (vs(ob.dmarg_prices), dm))
    j.true("order book prices", same(ob.ob_prices, mid(mp)), "%r" % vs(ob.ob_prices))
    if all(abs(x) > 1e-6 * max(mp) for x in dm):
        lq = [q(a, b) for a, b in zip(mid(dtrg), dm)]
        j.true("order book liquidity", same(ob.ob_liquidity, lq, 1e-6), "%r, expected %r" % (vs(ob.ob_liquidity), lq))
        j.true("area is liquidity", E(A.vecdot(ob.dmarg_prices, ob.ob_liquidity), sum(mid(dtrg)), 1e-6), "")
        d = ob.data_orderbook_chart()
        j.true("order book chart", same(d["liquidity"], lq, 1e-6) and same(d["x"], lq, 1e-6) and same(d["prices"], mid(mp)) and same(d["y"], mid(mp))
               and (d["liquidity_unit"], d["prices_unit"]) == (tt, "%s per %s" % (tt, ts)), "%r" % (d,))
        df = ob.data_orderbook_chart(aspandas=True)
        j.true("order book table", list(df.columns) == ["Price [%s per %s]" % (tt, ts), "Liquidity [%s]" % tt] and same(df.iloc[:, 0], mid(mp)) and same(df.iloc[:, 1], lq, 1e-6), "%r" % (df,))
    u, ur = "%s per %s" % (tt, ts), "%s per %s" % (ts, tt)
    j.true("units", (ob.prices_u, ob.marg_prices_u, ob.ob_prices_u, ob.pricesr_u(), ob.pricesr_u(False), ob.marg_pricesr_u(), ob.marg_pricesr_u(False), ob.ob_liquidity_u, ob.base_tkn, ob.quote_tkn)
           == (u, u, u, ur, u, ur, u, tt, ts, tt), "")
    j.true("side", (ob.reverse_book, ob.src_token_outin, ob.trg_token_outin, ob.amm_buysell_src, ob.amm_buysell_trg, ob.amm_bidask, ob.colorba)
           == ((True, "in", "out", "buys", "sells", "bid", "g") if rev else (False, "out", "in", "sells", "buys", "ask", "r")), "")
    d = ob.data_tokenamount_chart()
    j.true("amount chart", same(d["x"], src) and same(d["src"], src) and same(d["y"], trg) and same(d["trg"], trg) and (d["src_unit"], d["trg_unit"]) == (ts, tt), "%r" % (d,))
    df = ob.data_tokenamount_chart(aspandas=True)
    j.true("amount table", list(df.columns) == ["src_amt [%s]" % ts, "trg_amt [%s]" % tt] and same(df.iloc[:, 0], src) and same(df.iloc[:, 1], trg), "%r" % (df,))
    for r in (True, False):
        f = inv if r else (lambda v: v)
        d = ob.data_price_chart(reverse=r)
        j.true("price chart", same(d["x1"], src) and same(d["size1"], src) and same(d["y1"], f(pr)) and same(d["price1_eff"], f(pr)) and same(d["x2"], mid(src)) and same(d["size2"], mid(src))
               and same(d["y2"], f(mp)) and same(d["price2_marg"], f(mp)) and (d["size_unit"], d["prices_unit"], d["ammm_buysell_src"]) == (ts, ur if r else u, "buys" if rev else "sells"), "%r" % (d,))
        df = ob.data_price_chart(reverse=r, aspandas=True)
        j.true("price table", list(df.columns) == ["size1 [%s]" % ts, "price1_eff [%s]" % (ur if r else u), "size2 [%s]" % ts, "price2_marg [%s]" % (ur if r else u)] and len(df) == n
               and same(df.iloc[:, 0], src) and same(df.iloc[:, 1], f(pr)) and same(df.iloc[:n - 1, 2], mid(src)) and same(df.iloc[:n - 1, 3], f(mp)), "%r" % (df,))
    ex = ob.explain()
    w = ["This is the %s book." % ("BID" if rev else "ASK"), "Source token = %s, target token = %s." % (ts, tt), "AMM %s %s for %s." % ("buys" if rev else "sells", ts, tt),
         "Base token = %s, quote token = %s." % (ts, tt), "Prices are quoted in %s." % u, "Order book amounts are quoted in %s." % tt]
    j.true("explanation", ex == "\n".join(w), "%r" % ex)


NA = (None, float("nan"))


def a02_items(th):
    for n in range(0, 5 if th else 4):
        for v in itertools.product((1.0, 2.5, -3.0, 0.0, None), repeat=n):
            yield ("vec", v)
    for n in range(0, 6):
        for holes in itertools.product((0, 1), repeat=n):
            for m in range(max(0, n - 1), n + 2):
                yield ("trunc", holes, m)
    for n in (1, 2, 3, 10):
        for x in (1, 100.0, 1e-3, 1e6):
            yield ("lin", n, x)
    K = (1.0, 1.5, 3.0)
    for n in (3, 4, 5 if th else 4):
        for sx in itertools.product(K, repeat=n - 1):
            for sy in itertools.product((2.0, 5.0, 0.5), repeat=n - 1):
                yield ("book", sx, sy)
    for i in range(len(LIQB)):
        yield ("liq", i)


def a02(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    with core.quiet():
        globals()["a2_" + item[0]](item, j, t)


def a2_vec(item, j, t):
    v = item[1]
    full = all(x is not None for x in v)
    V = A.vec(v)
    j.true("vec", len(V) == len(v) and same(V, v), "%r" % (V,))
    if full and v:
        for s in (list(v), tuple(v), V, np.array(v)):
            j.true("midpoints", same(A.midpoints(s), [(a + b) / 2 for a, b in zip(v, v[1:])]) and same(OB.midpoints(s), A.midpoints(s)), "%r" % (A.midpoints(s),))
            j.true("differences", same(A.diff(s), [b - a for a, b in zip(v, v[1:])]), "%r" % (A.diff(s),))
        if all(v):
            j.true("reverse", same(OB.reverse(V), [1 / x for x in v]) and same(OB.inverse(V), [1 / x for x in v]), "")
    f = [0 if x is None else x for x in v]
    for k in range(2):
        w = [(i + 1) * (k + 1) if (i + k) % 3 else (None if k else 7) for i in range(len(v))]
        g = [0 if x is None else x for x in w]
        if all(x is None for x in v) or all(x is None for x in w):
            continue
        r, e = call(A.vecdot, A.vec(v), A.vec(w))
        j.true("dot product", e is None and E(r, sum(a * b for a, b in zip(f, g))), "%r %r: %r %r" % (v, w, r, e))
    for x in v:
        j.true("missing", A.isnonenan(x) is (x is None), "%r" % (x,))
    j.true("missing", A.isnonenan(float("nan")) and A.isnonenan(np.nan) and not A.isnonenan("a") and not A.isnonenan(0) and not A.isnonenan([]), "")


def a2_trunc(item, j, t):
    _, holes, m = item
    n = len(holes)
    for na in NA:
        s2 = [na if h else 10.0 * (i + 1) for i, h in enumerate(holes)]
        s1 = [float(i) for i in range(m)]
        k = min(n, m)
        while k and holes[k - 1]:
            k -= 1
        for mk in (list, A.vec, tuple):
            r, e = call(A.truncate, mk(s1), mk(s2))
            if not j.true("truncate", e is None, "raised %r" % (e,)):
                continue
            a, b = r
            j.true("truncate", same(a, s1[:k]) and same(b, s2[:k]), "%r %r -> %r %r, expected the first %d" % (s1, s2, vs(a), vs(b), k))
    j.true("module", AL.truncate is not None and AL.midpoints is not None, "")


def a2_lin(item, j, t):
    _, n, x = item
    for kw in ({}, dict(eps=1e-3), dict(eps2=0.01), dict(eps=0, eps2=0)):
        e1, e2 = kw.get("eps", 1e-4), kw.get("eps2", 1e-5)
        w = [x * i / n for i in range(n + 1)]
        w[0], w[-1] = e1, x * (1 - e2)
        v = A.linspace0(x, n, **kw)
        j.true("linspace0", same(v, w) and same(AL.linspace0(x, nint=n, **kw), w), "%r" % (v,))
    j.true("linspace0", len(A.linspace0(x)) == 11, "")
    j.true("linspace", same(A.linspace(x, 3 * x, n), np.linspace(x, 3 * x, n)) and len(A.linspace(x, 2 * x)) == 50, "")


def a2_book(item, j, t):
    _, sx, sy = item
    src, trg = [0.5], [1.0]
    for a, b in zip(sx, sy):
        src.append(src[-1] + a); trg.append(trg[-1] + b)
    for rev in (False, True):
        for tail in ((), (None,), (float("nan"), None)) if len(src) != 4 else ((), (None,)):
            s = src + [src[-1] + 1 + i for i in range(len(tail))]
            for mk in (list, A.vec) if len(src) != 4 else (list,):
                t.add("books")
                ob, e = call(OB, mk(s), mk(list(trg) + list(tail)), "AAA", "BBB", OB.BID if rev else OB.ASK)
                if j.true("order book", e is None, "raised %r" % (e,)):
                    judge_book(j, ob, src, trg, "AAA", "BBB", rev)
    # a missing amount inside does not move the other points
    if len(src) > 3:
        tr = list(trg); tr[1] = None
        ob = OB(src, tr)
        j.true("missing inside", same(ob.src_amounts, src) and same(ob.trg_amounts, tr), "%r %r" % (vs(ob.src_amounts), vs(ob.trg_amounts)))
    ob = OB(src, trg)
    j.true("defaults", (ob.src_tkn, ob.trg_tkn, ob.bidask) == ("SRC", "TRG", OB.ASK), "")
    for bad in ("x", None, "ASK"):
        ob, e = call(OB, src, trg, bidask=bad)
        j.true("side", isinstance(e, ValueError), "%r" % (bad,))


LIQB = [(), ("s1",), ("b1",), ("s1", "b1"), ("s1", "s2", "b1", "b2"), ("s1", "s2", "s3", "b1", "b2", "b3"), ("s2", "w1"), ("b2", "w2", "r1"), ("s1", "b1", "w1", "w2", "r1")]
XO = {"w1": ("WBTC", 1, 10000, 15000, "WBTC/USDC"), "w2": ("USDC", 900, 2000, 1000, "WBTC/USDC"), "r1": ("ETH", 7, 0.9, 1.1, "ETH/USDT")}


def a2_liq(item, j, t):
    names = LIQB[item[1]]
    P = CarbonPair("ETH/USDC")
    sim = CarbonSimulatorUI(pair=P, raiseonerror=True, verbose=False)
    for o in names:
        tkn, amt, p0, p1 = (ORD.get(o) or XO[o])[:4]
        sim.add_order(tkn, amt, p0, p1, pair=(XO[o][4] if o in XO else "ETH/USDC"))
    ui = sim.state()["orderuis"] if names else {}
    keep = repr(ui)
    grids = [list(range(400, 3200, 100)), [500, 1000, 1100, 2100, 2500, 3000], A.linspace(450, 3100, 54), np.array([990.0, 1010.0, 1399.0, 1401.0, 2199.0, 2201.0])]
    for g in grids:
        pts = [float(x) for x in g]
        for rev in (True, False, None):
            for purge in (True, False, None):
                kw = {}
                if rev is not None:
                    kw["reverse"] = rev
                if purge is not None:
                    kw["purgezero"] = purge
                r, e = call(AL.calc_liquidity_approx, ui, g, P, **kw)
                t.add("curves")
                if not j.true("liquidity", e is None, "raised %r" % (e,)):
                    continue
                rv, pz = rev is not False, purge is not False
                tk = "USDC" if rv else "ETH"
                j.true("liquidity fields", (r["pair"], r["price_u"], r["liqtkn_u"], r["reverse"]) == (P, "USDC per ETH", tk, rv), "%r" % (r,))
                j.true("liquidity prices", same(r["prices"], [(a + b) / 2 for a, b in zip(pts, pts[1:])]), "%r" % (r["prices"],))
                for side, tok in (("ask", "ETH"), ("bid", "USDC")):
                    lo, hi = [], []
                    for a, b in zip(pts, pts[1:]):
                        l = h = 0.0
                        for o in names:
                            if o in XO or ORD[o][0] != tok:
                                continue
                            _, amt, p0, p1 = ORD[o]
                            pl, ph = min(p0, p1), max(p0, p1)
                            x, y = max(a, pl), min(b, ph)
                            if pl == ph:
                                sh = 1.0 if a <= pl < b else 0.0
                                x = y = pl
                            else:
                                sh = max(0.0, (y - x) / (ph - pl))
                            if sh <= 1e-12:
                                continue
                            k = 1.0 if tok == tk else None
                            f = (lambda p: 1.0) if k else (lambda p: p if tok == "ETH" else 1 / p)
                            v = sorted((amt * sh * f(x) / (b - a), amt * sh * f(y) / (b - a)))
                            l += v[0]; h += v[1]
                        lo.append(l); hi.append(h)
                    got = r[side]
                    j.true("liquidity length", len(got) == len(lo), "")
                    for x, l, h in zip(got, lo, hi):
                        if h == 0:
                            j.true("no liquidity", (x is None and pz) or (x == 0 and not pz) or (x and abs(x) < 1e-9), "%s %r" % (side, x))
                        else:
                            j.true("liquidity value", x is not None and l * (1 - 1e-4) <= x <= h * (1 + 1e-4), "%s %r not in [%r, %r]" % (side, x, l, h))
    j.true("orders unchanged", repr(ui) == keep, "")
    for bad in ("ETH/USDC", None):
        r, e = call(AL.calc_liquidity_approx, ui, grids[0], bad)
        j.true("pair", isinstance(e, ValueError), "%r" % (bad,))


FN = {"A%02d" % i: globals()["a%02d" % i] for i in range(1, 3)}
ITEMS = {"A%02d" % i: globals()["a%02d_items" % i] for i in range(1, 3)}
BOUNDS = {
    "A01": "books of up to 2 sell and 2 buy orders out of 3 each (wide, narrow, flat), 7 trade sizes from 0.1% to 10 times the liquidity, all ways of giving simulator, pair and token; simulators with three pairs and another default pair",
    "A02": "vectors of up to 3 (quick) or 4 (thorough) numbers, all patterns of missing values up to length 5, books of up to 4 (quick) or 5 (thorough) points over 3x3 step sizes, 9 order sets over 4 price grids"}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=len(tally.sets.get("states", ())) or len(it), transitions=tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    FN[pid](_tup(case["case"]), t)
