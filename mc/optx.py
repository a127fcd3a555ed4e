"""Arbitrage optimizers (carbon/tools/optimizer.py): single-pair optimizer (O01), marginal price optimizer (O02),
trade instructions and adjusted curves (O03), self financing constraints and numerical helpers (O04), the convex
problem (O05)."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from math import sqrt, isfinite, log10

import numpy as np

from mc import core
from mc.core import call, num
from mc.oui import J
from mc.cpcx import Ref, CPC, CPCContainer, CPCInverter, RG
from carbon.tools import optimizer as opt
from carbon.tools.tokenscale import TokenScale
from carbon.tools.optimizer import CPCArbOptimizer as Opt, OptimizerBase
TI = Opt.TradeInstruction
SFC = Opt.SelfFinancingConstraints

IRG = {k: (None if b is None else 1 / b, None if a is None else 1 / a) for k, (a, b) in RG.items()}


class Crv:
    """a curve and its definition; price in quote per base of its own pair"""

    def __init__(self, spec, cid, flip=False):
        pair, p, k, rg = spec
        rel = RG[rg] if isinstance(rg, str) else rg
        if flip:
            pair, p, rel = "/".join(pair.split("/")[::-1]), 1 / p, tuple(None if a is None else 1 / a for a in rel[::-1])
        self.r = Ref(p, k, rel)
        self.b, self.q = pair.split("/")
        self.cid = cid
        r = self.r
        self.c = CPC.from_pk(p=p, k=k, x_act=r.xa if r.pmax else None, y_act=r.ya if r.pmin else None, pair=pair, cid=cid, fee=0, descr="")

    def at(self, P):
        """(dx, dy) of the base and quote tokens when the curve is moved to price P, as far as its range goes"""
        r = self.r
        P = min(max(P, r.pmin or 0.0), r.pmax or float("inf"))
        return sqrt(r.k / P) - r.x, sqrt(r.k * P) - r.y


def curves(specs, flips=()):
    return [Crv(s, "c%d" % i, i in flips) for i, s in enumerate(specs)]


def net(cs, prices):
    """net amount of each token, when all curves are at the given token prices"""
    out = {}
    for c in cs:
        dx, dy = c.at(prices[c.b] / prices[c.q])
        out[c.b] = out.get(c.b, 0.0) + dx
        out[c.q] = out.get(c.q, 0.0) + dy
    return out


def size(cs):
    """virtual amounts of each token"""
    out = {}
    for c in cs:
        out[c.b] = out.get(c.b, 0.0) + c.r.x
        out[c.q] = out.get(c.q, 0.0) + c.r.y
    return out


# ---------------------------------------------------------------- O01

# curves of one pair, prices relative to the level of the pair
ONE = [(1.0, 4e10, "full"), (1.05, 1e9, "in"), (0.93, 1e10, "wide"), (1.02, 1e11, "tight"), (0.95, 1e9, "atmin"),
       (1.08, 3e9, "atmax"), (1.01, 1e4, "full"), (1.3, 1e10, "low"), (0.7, 1e10, "high"), (0.9, 1e10, "empty")]
LEVELS = (("ETH/USDC", 2000.0), ("LINK/ETH", 0.004), ("WETH-6Cc2/USDC-eB48", 1.0), ("SHIB/ETH", 5e-9), ("WBTC/SHIB", 2e9))


def o01_items(th):
    n = range(len(ONE))
    sets = [c for k in range(1, (5 if th else 4)) for c in itertools.combinations(n, k)]
    for lv in range(len(LEVELS)):
        for i, c in enumerate(sets):
            yield (lv, c, (i + lv) % 3)
    yield ("large price", (0, 1), 0)
    yield ("large price", (0, 2), 0)


def root(f, lo, hi):
    """decreasing f: a point where it crosses zero, geometric bisection"""
    for _ in range(200):
        m = sqrt(lo * hi)
        if f(m) > 0:
            lo = m
        else:
            hi = m
    return sqrt(lo * hi)


def o01_large(item, t):
    """maximum mode where prices are large against the step of the numerical derivative"""
    idx = item[1]
    j = J(t, list(item))
    cs = curves([("ETH/USDC", ONE[i][0] * 2000.0, ONE[i][1], ONE[i][2]) for i in idx])
    r, e = call(Opt(CPCContainer(c.c for c in cs)).simple_optimizer)
    n = lambda p: net(cs, {"ETH": p, "USDC": 1.0})
    p = root(lambda p: -n(p)["USDC"], 1000.0, 4000.0)
    if j.true("globalmax", e is None, "raised %r" % (e,)) and not r.is_error:
        j.eq("globalmax at price 2000 curves %s" % (list(idx),), r.p_optimal, p, 1e-3)


def o01(item, t):
    if item[0] == "large price":
        return o01_large(item, t)
    lv, idx, fl = item
    pair, level = LEVELS[lv]
    case = list(item)
    j = J(t, case)
    specs = [(pair, ONE[i][0] * level, ONE[i][1], ONE[i][2]) for i in idx]
    flips = {0: (), 1: tuple(range(0, len(idx), 2)), 2: tuple(range(len(idx)))}[fl]
    cs = curves(specs, flips)
    ref = curves(specs)                       # as in the pair's own orientation
    b, q = pair.split("/")
    sz = size(ref)
    C = CPCContainer(c.c for c in cs)
    o = Opt(C)
    before = [c.asdict() for c in C]
    wrapped = CPCInverter.wrap(C)
    bq = (wrapped[0].tknb, wrapped[0].tknq)   # the primary orientation
    prim = bq == (b, q)
    tol = 3e-6

    def nets(p):                              # (base, quote) sums of the primary orientation at its price p
        d = net(ref, {b: p if prim else 1 / p, q: 1.0})
        return d[bq[0]], d[bq[1]]
    lvl = level if prim else 1 / level
    # the functions of price
    F = {r: o.simple_optimizer(result=r) for r in (o.SO_DXDYVECFUNC, o.SO_DXDYSUMFUNC, o.SO_DXDYVALXFUNC, o.SO_DXDYVALYFUNC)}
    for f in (0.4, 0.9, 0.97, 1.0, 1.03, 1.1, 2.5):
        p = lvl * f
        t.add("points")
        v = F[o.SO_DXDYVECFUNC](p)
        dx, dy = nets(p)
        if j.true("dxdyvec", len(v) == len(cs), "%d entries" % len(v)):
            for a, c in zip(v, ref):
                w = c.at(p if prim else 1 / p)
                w = w if prim else w[::-1]
                j.eq("dxdyvec", a[0], w[0], 1e-6, 1e-8 * sz[bq[0]]); j.eq("dxdyvec", a[1], w[1], 1e-6, 1e-8 * sz[bq[1]])
        s = F[o.SO_DXDYSUMFUNC](p)
        j.eq("dxdysum", s[0], dx, 1e-6, 1e-8 * sz[bq[0]]); j.eq("dxdysum", s[1], dy, 1e-6, 1e-8 * sz[bq[1]])
        j.eq("valx", F[o.SO_DXDYVALXFUNC](p), dx + dy / p, 1e-6, 1e-7 * (sz[bq[0]] + sz[bq[1]] / p))
        j.eq("valy", F[o.SO_DXDYVALYFUNC](p), dx * p + dy, 1e-6, 1e-7 * (sz[bq[0]] * p + sz[bq[1]]))
    ps = [c.r.p if prim else 1 / c.r.p for c in ref]
    plo, phi = min(ps), max(ps)
    for ti, tkn in enumerate(bq):
        t.add("optimizations")
        other = 1 - ti
        # the best price: the other token balances
        pstar = root(lambda p: nets(p)[0] if other == 0 else -nets(p)[1], plo * 0.5, phi * 2)
        want = nets(pstar)[ti]
        for call_ in ((tkn,), (tkn, o.SO_TARGETTKN)):
            r, e = call(o.simple_optimizer, *call_)
            if not j.true("targettkn", e is None, "%s raised %r" % (call_, e)):
                return
            if not j.true("targettkn", not r.is_error and r.error is None, "error %r" % (r.errormsg,)):
                return
        ab = tol * sz[tkn]
        j.eq("target amount", r.result, want, 1e-6, ab)
        j.true("target gain", num(r.result) is not None and r.result <= ab, "arbitrage would cost %r %s" % (r.result, tkn))
        j.eq("float", float(r), r.result)
        s = r.dxdy_sum
        j.eq("other token balances", s[other], 0.0, 0, tol * sz[bq[other]])
        j.eq("result is the sum", s[ti], r.result, 1e-9, 1e-9 * sz[tkn])
        p = r.p_optimal
        j.true("price in range", plo * 0.98 <= p <= phi * 1.02, "p_optimal %r outside [%r, %r]" % (p, plo, phi))
        j.true("result pair", (r.tknx, r.tkny, r.pair) == (bq[0], bq[1], "%s/%s" % bq) and r.pairp == "/".join(x.split("-")[0] for x in bq)
               and (r.tknxp, r.tknyp) == tuple(x.split("-")[0] for x in bq), "%r" % ((r.tknx, r.tkny, r.pair),))
        j.true("result method", r.method == "simple-targettkn" and r.optimizer is o and r.status() == "converged" and isfinite(r.time), repr(r.method))
        dxs, dys = r.dxvalues, r.dyvalues
        j.true("values", len(dxs) == len(dys) == len(cs) and tuple(r.dxv) == tuple(dxs) and tuple(r.dyv) == tuple(dys), "")
        for x, y, c in zip(dxs, dys, ref):
            w = c.at(p if prim else 1 / p)
            w = w if prim else w[::-1]
            j.eq("curve trade", x, w[0], 1e-6, 1e-8 * sz[bq[0]]); j.eq("curve trade", y, w[1], 1e-6, 1e-8 * sz[bq[1]])
        j.true("vectors", [tuple(v) for v in r.dxdy_vec] == list(zip(dxs, dys)), "")
        j.eq("dxdy_valx", r.dxdy_valx, s[0] + s[1] / p, 1e-6, 1e-9 * (sz[bq[0]] + sz[bq[1]] / p)); j.eq("valx", r.valx, r.dxdy_valx)
        j.eq("dxdy_valy", r.dxdy_valy, s[0] * p + s[1], 1e-6, 1e-9 * (sz[bq[0]] * p + sz[bq[1]])); j.eq("valy", r.valy, r.dxdy_valy)
    # the global maximum, where the step of the derivative is fine enough
    if 0.1 <= level <= 10 and all(ONE[i][2] in ("full", "wide") for i in idx):
        r, e = call(o.simple_optimizer)
        if j.true("globalmax", e is None and not r.is_error, "%r %r" % (e, r and r.errormsg)):
            pstar = root(lambda p: -nets(p)[1], plo * 0.5, phi * 2)
            j.eq("globalmax price", r.p_optimal, pstar, 1e-4)
            dx, dy = nets(pstar)
            j.eq("globalmax", r.result, dx + dy / pstar, 1e-6, 1e-6 * sz[bq[0]])
            pm, e = call(o.simple_optimizer, result=o.SO_PMAX)
            j.true("pmax", e is None and not pm.is_error and float(pm) == r.p_optimal, "%r %r" % (e, pm))
            j.true("globalmax method", r.method == "simple-globalmax", r.method)
    # documented misuse
    for a, kw in (((), dict(result=o.SO_TARGETTKN)), (("ETH" if "ETH" in bq else b, o.SO_GLOBALMAX), {}), (("FOO",), {}), ((), dict(result="rubbish"))):
        v, e = call(o.simple_optimizer, *a, **kw)
        j.true("misuse", e is not None, "%r %r gave %r" % (a, kw, v))
    j.true("container unchanged", [c.asdict() for c in C] == before, "")
    if len(idx) == 2 and not fl:
        v, e = call(Opt(CPCContainer([cs[0].c, Crv(("AAA/BBB", 1.0, 1.0, "full"), "z").c])).simple_optimizer, bq[0])
        j.true("one pair only", isinstance(e, AssertionError), "two pairs accepted: %r" % (v,))


# ---------------------------------------------------------------- O02

NETS = {
    "main": [("ETH/USDC", 2000.0, 4e10, "full"), ("ETH/USDC", 2100.0, 1e9, "in"), ("LINK/USDC", 7.0, 1e8, "full"), ("ETH/LINK", 250.0, 1e6, "wide"),
             ("USDC/ETH", 1 / 1900, 1e9, "atmin"), ("LINK/ETH", 1 / 300, 1e7, "atmax"), ("ETH/USDC", 2200.0, 1e10, "tight"),
             ("LINK/USDC", 7.3, 1e7, "full"), ("LINK/ETH", 1 / 270, 1e7, "full")],
    "scale": [("SHIB/ETH", 5e-9, 1e14, "full"), ("WBTC/ETH", 15.0, 1e6, "full"), ("WBTC/SHIB", 3.1e9, 1e16, "wide"), ("SHIB/WBTC", 1 / 2.8e9, 1e12, "full"),
              ("ETH/SHIB", 2.1e8, 1e18, "in"), ("WBTC/ETH", 15.5, 1e5, "low")],
    "chain": [("A/B", 2.0, 1e4, "full"), ("B/C", 3.0, 1e4, "full"), ("C/D", 0.5, 1e4, "full"), ("A/D", 3.3, 1e4, "full"), ("D/B", 0.7, 1e4, "wide"),
              ("A/C", 5.5, 1e4, "in"), ("C/A", 0.16, 1e3, "full")],
    "names": [("WETH-6Cc2/USDC-eB48", 2000.0, 4e10, "full"), ("WETH-6Cc2/USDC-eB48", 2100.0, 4e9, "full"), ("USDC-eB48/WETH-6Cc2", 1 / 1950, 1e9, "wide"),
              ("WETH-6Cc2/USDC-ffff", 2050.0, 4e10, "full"), ("USDC-ffff/USDC-eB48", 0.99, 1e10, "tight")],
    "ring": [("A/B", 2.0, 1e4, "full"), ("B/C", 3.0, 1e4, "full"), ("D/C", 0.5, 2e4, "full"), ("D/E", 1.2, 1e4, "full"), ("F/E", 0.3, 3e4, "full"),
             ("F/A", 0.5, 1e4, "full"), ("B/E", 1.5, 1e4, "full")],
}


def o02_items(th):
    for nm, base in NETS.items():
        for k in range(1, (7 if th else 5)):
            if nm == "ring" and k < 5:
                continue
            for c in itertools.combinations(range(len(base)), k):
                yield (nm, c)
    for c in ((0, 1, 2, 3, 4), (0, 1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6), (0, 1, 2, 3, 4, 5, 6)):
        yield ("ring", c)


def components(cs):
    """the tokens, if the curves connect all of them"""
    toks = {c.b for c in cs} | {c.q for c in cs}
    seen, todo = set(), [next(iter(toks))]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [c.q if c.b == x else c.b for c in cs if x in (c.b, c.q)]
    return sorted(toks) if seen == toks else None


def start(cs, target):
    """some start prices: along the first path found"""
    p = {target: 1.0}
    while True:
        n = len(p)
        for c in cs:
            if c.b in p and c.q not in p:
                p[c.q] = p[c.b] / c.r.p
            elif c.q in p and c.b not in p:
                p[c.b] = p[c.q] * c.r.p
        if len(p) == n:
            return p


def direct(cs, tkn, target):
    """price estimate by definition, or None"""
    num_, den = 0.0, 0.0
    for c in cs:
        if c.r.xa < 1e-9 * c.r.x or c.r.ya < 1e-9 * c.r.y:
            continue
        if (c.b, c.q) == (tkn, target):
            num_ += c.r.p * sqrt(c.r.k); den += sqrt(c.r.k)
        elif (c.q, c.b) == (tkn, target):
            num_ += sqrt(c.r.k) / c.r.p; den += sqrt(c.r.k)
    return num_ / den if den else None


def judge_margp(j, t, cs, o, target, r, toks, key="margp"):
    """r claims to be the optimum: it is, from first principles.  Returns the gain"""
    others = [x for x in toks if x != target]
    sz = size(cs)
    pr = dict(r.p_optimal)
    if not j.true(key + " tokens", sorted(pr) == sorted(others) and set(r.tokens_t) == set(others) and r.targettkn == target, "%r %r" % (sorted(pr), r.tokens_t)):
        return None
    j.true(key + " prices", all(num(v) is not None and v > 0 for v in pr.values()) and tuple(r.p_optimal_t) == tuple(pr[x] for x in r.tokens_t), repr(pr))
    P = dict(pr); P[target] = 1.0
    n = net(cs, P)
    for x in others:
        j.eq(key + " non-target tokens balance", n[x], 0.0, 0, 2e-5 * sz[x], x)
    j.eq(key + " result", r.result, n[target], 1e-6, 1e-8 * sz[target])
    j.true(key + " gain", num(r.result) is not None and r.result <= 2e-5 * sz[target] * len(toks), "arbitrage would cost %r %s" % (r.result, target))
    if r.dtokens is not None:
        j.true(key + " dtokens", sorted(r.dtokens) == sorted(toks) and tuple(r.dtokens_t) == tuple(r.dtokens[x] for x in r.tokens_t), repr(r.dtokens))
        for x in toks:
            j.eq(key + " dtokens", r.dtokens[x], n[x], 1e-6, 1e-8 * sz[x])
    # optimal: no price vector promises more than was found (weak duality)
    slack = sum(2e-5 * sz[x] * P[x] for x in toks)
    for x in others:
        for f in (0.5, 0.9, 0.99, 1.01, 1.1, 2.0):
            P2 = dict(P); P2[x] *= f
            n2 = net(cs, P2)
            t.add("dual_points")
            j.true(key + " optimal", r.result >= sum(P2[y] * n2[y] for y in toks) - slack, "more was possible: %s" % x)
    return r.result


def o02(item, t):
    nm, idx = item
    j = J(t, [nm, list(idx)])
    specs = [NETS[nm][i] for i in idx]
    cs = curves(specs)
    toks = components(cs)
    if toks is None:
        return
    smooth = all(s[3] == "full" for s in specs) or (len(toks) == 2 and all(s[3] in ("full", "in", "wide", "tight") for s in specs))
    sz = size(cs)
    C = CPCContainer(c.c for c in cs)
    before = [c.asdict() for c in C]
    o = Opt(C)
    gains = {}
    for target in toks:
        t.add("optimizations")
        others = [x for x in toks if x != target]
        est = {x: direct(cs, x, target) for x in others}
        st = start(cs, target)
        have = all(v is not None for v in est.values())
        # price estimates, debug information, the function
        df, e = call(o.margp_optimizer, target, o.MO_PSTART)
        if have:
            if j.true("pstart", e is None, "raised %r" % (e,)):
                d = df.to_dict()[target]
                j.true("pstart", sorted(d) == sorted(others), repr(sorted(d)))
                for x in others:
                    j.eq("pstart", d.get(x), est[x])
        params = dict(pstart=dict(st, EXTRA=1.0))
        dbg, e = call(o.margp_optimizer, target, o.MO_DEBUG, params=params)
        fn, e2 = call(o.margp_optimizer, target, o.MO_DTKNFROMPF, params=params)
        if not j.true("debug", e is None and e2 is None, "raised %r %r" % (e, e2)):
            continue
        tt = dbg["tokens_t"]
        j.true("debug", sorted(tt) == sorted(others) and dbg["targettkn"] == target and dbg["tokens_ix"] == {x: i for i, x in enumerate(tt)}
               and tuple(dbg["price_estimates_t"]) == tuple(st[x] for x in tt) and dbg["optimizer"] is o and dbg["sfc"].optimizationvar == target, repr(dbg))
        for k, f in enumerate((1.0, 0.7, 1.01, 3.0)):
            P = {x: st[x] * (f if (i + k) % 2 else 1.0) for i, x in enumerate(tt)}
            P[target] = 1.0
            n = net(cs, P)
            vec = np.array([P[x] for x in tt])
            d, v = fn(vec, islog10=False, asdct=True)
            v2 = fn(np.log10(vec))
            t.add("points")
            j.true("dtknfromp", sorted(d) == toks, repr(sorted(d)))
            for i, x in enumerate(tt):
                j.eq("dtknfromp", v[i], n[x], 1e-6, 1e-8 * sz[x]); j.eq("dtknfromp log", v2[i], n[x], 1e-6, 1e-8 * sz[x]); j.eq("dtknfromp dict", d.get(x), n[x], 1e-6, 1e-8 * sz[x])
            j.eq("dtknfromp dict", d.get(target), n[target], 1e-6, 1e-8 * sz[target])
        # optimize from estimates (where there are), and from given start prices
        forms = [("pstart", dict(params=params))]
        if have:
            forms += [("estimates", {}), ("frame", dict(params=dict(pstart=df)))]
        # start prices belong to their tokens, in whatever order and form they are given
        ps = [dict(reversed([(x, st[x]) for x in tt])), {x: st[x] for x in sorted(tt)}]
        if have:
            ps += [df.iloc[::-1], df.sort_index()]
        for p_ in ps:
            d, e = call(o.margp_optimizer, target, o.MO_DEBUG, params=dict(pstart=p_))
            w = st if isinstance(p_, dict) else est
            if j.true("pstart order", e is None, "raised %r" % (e,)):
                for x, v in zip(d["tokens_t"], d["price_estimates_t"]):
                    j.eq("pstart order", v, w[x], 1e-9, 0, x)
        # a result that is given in spite of a low limit of iterations has the requested precision
        if all(s[3] == "full" for s in specs):
            for mi in (1, 2, 3, 4, 5, 6):
                r, e = call(o.margp_optimizer, target, params=dict(pstart=st, maxiter=mi, eps=1e-11))
                if j.true("maxiter", e is None, "raised %r" % (e,)) and not r.is_error:
                    P = dict(r.p_optimal); P[target] = 1.0
                    n = net(cs, P)
                    t.add("limited")
                    for x in others:
                        j.eq("maxiter", n[x], 0.0, 0, 1e-9 * sz[x], "%d iterations, %s" % (mi, x))
        for fnm, kw in forms:
            r, e = call(o.margp_optimizer, target, **kw)
            if not j.true("margp", e is None, "%s raised %r" % (fnm, e)):
                continue
            j.true("margp method", r.method == "margp" and isfinite(r.time) and r.status() == ("error" if r.is_error else "converged"), r.method)
            if r.is_error:
                t.add("errors")
                j.true("margp finds the optimum", not smooth, "%s: error %r on unbounded curves" % (fnm, r.errormsg))
                j.true("margp error", r.result is None and r.p_optimal_t is None and r.error == r.errormsg, "error with a result %r" % (r.result,))
                for a in ("dxdyvalues", "trade_instructions"):
                    v, e = call(getattr(r, a))
                    j.true("error result", e is not None, "%s gave %r" % (a, v))
                v, e = call(lambda: r.curves_new)
                j.true("error result", e is not None, "curves_new gave %r" % (v,))
                continue
            g = judge_margp(j, t, cs, o, target, r, toks)
            j.eq("float", float(r), r.result)
            if g is None:
                continue
            if target in gains:
                j.eq("independent of the start", g, gains[target], 1e-6, 4e-5 * sz[target] * len(toks))
            gains[target] = g
            # prices and trades
            P = dict(r.p_optimal); P[target] = 1.0
            for x, y in itertools.permutations(toks, 2):
                j.eq("price", r.price(x, y), P[x] / P[y])
            dd = r.dxdyvalues(asdict=True)
            dv = r.dxdyvalues()
            j.true("dxdyvalues", list(dd) == [c.cid for c in cs] and [tuple(v) for v in dd.values()] == [tuple(v) for v in dv]
                   and tuple(r.dxvalues) == tuple(v[0] for v in dv) and tuple(r.dyvalues) == tuple(v[1] for v in dv), repr(dd))
            for v, c in zip(dv, cs):
                w = c.at(P[c.b] / P[c.q])
                j.eq("dxdyvalues", v[0], w[0], 1e-6, 1e-9 * sz[c.b]); j.eq("dxdyvalues", v[1], w[1], 1e-6, 1e-9 * sz[c.q])
            # minimal results are the same results
            m, e = call(o.margp_optimizer, target, o.MO_MINIMAL, **kw)
            if j.true("minimal", e is None and not m.is_error, "%r" % (e,)):
                j.true("minimal", (m.result, tuple(m.p_optimal_t), tuple(m.dtokens_t), m.tokens_t, m.targettkn, m.n_iterations) ==
                       (r.result, tuple(r.p_optimal_t), tuple(r.dtokens_t), r.tokens_t, r.targettkn, r.n_iterations), "%r vs %r" % (m, r))
                j.true("minimal", m.optimizer is None and m.curves is None and m.p_optimal is None and m.dtokens is None, "not minimal: %r" % (m,))
                for a in (lambda: m.curves_new, lambda: m.price(toks[0], toks[1]), m.dxdyvalues, m.trade_instructions):
                    v, e = call(a)
                    j.true("minimal has no details", isinstance(e, AssertionError), "%r %r" % (v, e))
            f, e = call(o.margp_optimizer, o.SFC(**{target: o.AMMPays}) if "-" not in target else o.SFCd({target: o.AMMPays}), o.MO_FULL, **kw)
            j.true("sfc form", e is None and f.result == r.result, "%r" % (e,))
            # the curves after the trades: same invariants, right balances, nothing left to gain
            cn = r.curves_new
            if not j.true("curves_new", cn is not None and len(cn) == len(cs), "no adjusted curves"):
                continue
            for a, c, v in zip(cn, cs, dv):
                j.true("curves_new", a.cid.startswith(c.cid) and a.pair == c.c.pair, a.cid)
                j.eq("curves_new k", a.k, c.r.k, 1e-7); j.eq("curves_new x", a.x, c.r.x + v[0], 1e-7); j.eq("curves_new y", a.y, c.r.y + v[1], 1e-7)
                j.eq("curves_new x_act", a.x_act, c.r.xa + v[0], 1e-7, 1e-8 * c.r.x); j.eq("curves_new y_act", a.y_act, c.r.ya + v[1], 1e-7, 1e-8 * c.r.y)
                j.eq("curves_new p_min", a.p_min or 0, c.r.pmin or 0, 1e-5, 1e-9 * c.r.p)
                j.eq("curves_new 1/p_max", 1 / (a.p_max or 1e99), 1 / (c.r.pmax or 1e99), 1e-5, 1e-9 / c.r.p)
            r2, e = call(Opt(cn).margp_optimizer, target, params=dict(pstart=dict(r.p_optimal)))
            if j.true("second run", e is None, "raised %r" % (e,)):
                j.true("second run", r2.is_error or abs(r2.result) <= 4e-5 * sz[target] * len(toks), "%r %s left after the arbitrage" % (r2.result, target))
    # the gain in one token is the gain in another, at the optimal prices, if small against the curves; and no more in another
    # order or orientation of the curves
    for flips, rev in ((tuple(range(len(cs))), False), (tuple(range(0, len(cs), 2)), True)):
        cf = curves(specs, flips)
        cf = cf[::-1] if rev else cf
        of = Opt(CPCContainer(c.c for c in cf))
        for target in toks[:2]:
            if target not in gains:
                continue
            r, e = call(of.margp_optimizer, target, params=dict(pstart=start(cs, target)))
            t.add("optimizations")
            if j.true("reoriented", e is None, "raised %r" % (e,)) and not r.is_error:
                j.eq("reoriented", r.result, gains[target], 1e-6, 4e-5 * sz[target] * len(toks))
    # misuse
    for a in (("FOO",), (o.SFCd({toks[0]: o.OV, toks[1]: 5.0}),)):
        v, e = call(o.margp_optimizer, *a, params=dict(pstart=start(cs, toks[0])))
        j.true("misuse", isinstance(e, AssertionError), "%r accepted: %r" % (a, v))
    j.true("container unchanged", [c.asdict() for c in C] == before, "")
    if len(idx) == 2:
        v, e = call(Opt(CPCContainer()).margp_optimizer, "ETH")
        j.true("misuse", isinstance(e, AssertionError), "empty container: %r" % (v,))


# ---------------------------------------------------------------- O03

def o03_items(th):
    for nm, base in NETS.items():
        for k in range(1, (6 if th else 4)):
            for c in itertools.combinations(range(len(base)), k):
                for sc in (1.0, 1e-12, 1e16, 1e-30):
                    yield ("nets", nm, c, sc)
        for k in (4, 5, 6):
            for c in list(itertools.combinations(range(len(base)), k))[::(1 if th else 9)]:
                yield ("nets", nm, c, 1.0)
    n = range(len(ONE))
    for lv in range(len(LEVELS)):
        for k in (1, 2, 3):
            for c in itertools.combinations(n, k):
                yield ("one", lv, c, (1.0, 1e18, 1e-26)[sum(c) % 3])
    for a in AMTS:
        for b in AMTS:
            yield ("new", a, b)


AMTS = (1.0, -1.0, 1e-3, -2e9, 3e20, -1e-7, 1e-9, -1e-9, 0.0)


def o03(item, t):
    {"nets": o03_nets, "one": o03_one, "new": o03_new}[item[0]](item, t)


def o03_new(item, t):
    """a trade instruction has one token going in, one coming out, and the right amounts with the right tokens"""
    _, a, b = item
    j = J(t, list(item))
    cur = CPC.from_pk(p=2.0, k=100.0, pair="AAA/BBB", cid="cc", fee=0, descr="")
    for c in ("cc", cur):
        r, e = call(TI.new, c, "AAA", a, "BBB", b)
        t.add("instructions")
        tiny = abs(a) < 1e-8 and abs(b) < 1e-8
        if a * b < 0:
            if not j.true("new", e is None, "raised %r" % (e,)):
                continue
            i, o = (("AAA", a), ("BBB", b)) if a > 0 else (("BBB", b), ("AAA", a))
            j.true("new", (r.cid, r.tknin, r.amtin, r.tknout, r.amtout) == ("cc", i[0], i[1], o[0], o[1]) and r.curve is (None if c == "cc" else cur), repr(r))
            j.true("not empty", r.is_empty is False, "")
            j.eq("price", r.price_outperin, -o[1] / i[1]); j.eq("price", r.p, -o[1] / i[1])
            j.eq("price", r.price_inperout, -i[1] / o[1]); j.eq("price", r.pr, -i[1] / o[1])
            j.true("prices", r.prices == (r.p, r.pr) == r.pp, repr(r.pp))
            j.true("dict", r.asdict() == dict(cid="cc", tknin=i[0], amtin=i[1], tknout=o[0], amtout=o[1]), repr(r.asdict()))
            # the other way round it is the same instruction
            r2, e = call(TI.new, c, "BBB", b, "AAA", a)
            j.true("symmetric", e is None and r2 == r, "%r vs %r" % (r2, r))
            d, e = call(TI, "cc", i[0], i[1], o[0], o[1])
            j.true("direct", e is None and d == r, "%r %r" % (d, e))
            d, e = call(TI, "cc", o[0], o[1], i[0], i[1])
            j.true("wrong signs", e is not None, "in amount %r out amount %r accepted" % (o[1], i[1]))
        elif tiny:
            j.true("empty", e is None and r.is_empty and r.amtin == 0 and r.amtout == 0, "%r %r" % (r, e))
        else:
            j.true("same sign", isinstance(e, ValueError), "both amounts of one sign accepted: %r" % (r,))
    r, e = call(TI.new, "cc", "AAA", 1, "AAA", -1)
    j.true("one token", e is not None, "token against itself accepted")
    r, e = call(TI, "xx", "AAA", 1.0, "BBB", -1.0, curve=cur)
    j.true("curve id", isinstance(e, AssertionError), "wrong curve accepted")


def judge_ti(j, t, r, cs, toks, want, tag):
    """want: cid -> {token: amount}; the instructions reconcile with it in every format"""
    sz = size(cs)
    tis, e = call(r.trade_instructions)
    if not j.true("instructions", e is None, "%s raised %r" % (tag, e)):
        return
    t.add("instructions", len(tis))
    by = {}
    for x in tis:
        j.true("one instruction per curve", x.cid not in by, x.cid)
        by[x.cid] = x
        j.true("signs", x.amtin >= 0 and x.amtout <= 0 and x.tknin != x.tknout, repr(x))
    for c in cs:
        w = want[c.cid]
        x = by.get(c.cid)
        moved = any(abs(w[tk]) > 1e-7 * s for tk, s in ((c.b, c.r.x), (c.q, c.r.y)))
        if x is None:
            j.true("complete", not moved, "%s: no instruction for %s" % (tag, c.cid))
            continue
        j.true("curve", x.curve is not None and x.curve.cid == c.cid and {x.tknin, x.tknout} == {c.b, c.q}, repr(x))
        got = {x.tknin: x.amtin, x.tknout: x.amtout}
        for tk, s in ((c.b, c.r.x), (c.q, c.r.y)):
            j.eq("amounts", got.get(tk), w[tk], 1e-6, 1e-8 * s, tk)
    tot = {tk: sum((x.amtin if x.tknin == tk else 0) + (x.amtout if x.tknout == tk else 0) for x in tis) for tk in toks}
    for tk in toks:
        j.eq("totals", tot[tk], sum(w.get(tk, 0) for w in want.values()), 1e-6, 1e-8 * sz[tk])
    # formats
    for f in (Opt.TIF_OBJECTS, None):
        v = r.trade_instructions(f) if f else tis
        j.true("objects", tuple(v) == tuple(tis), "")
    d = r.trade_instructions(Opt.TIF_DICTS)
    j.true("dicts", d == [x.asdict() for x in tis] and [TI(**x) for x in d] == list(tis), repr(d))
    for f in (Opt.TIF_DFRAW, Opt.TIF_DFP, Opt.TIF_DFAGGR, Opt.TIF_DF):
        df, e = call(r.trade_instructions, f)
        if not j.true("frame", e is None, "%s raised %r" % (f, e)):
            continue
        t.add("frames")
        if not tis:
            j.true("empty frame", len(df) == 0, repr(df))
            continue
        lab = list(df.index)
        extra = ["AMMIn", "AMMOut", "TOTAL NET"] if f == Opt.TIF_DFAGGR else []
        if not j.true("frame rows", lab == [x.cid for x in tis] + extra, "%s %s" % (f, lab)):
            continue
        rec = df.to_dict(orient="records")
        for x, row in zip(tis, rec):
            if not extra:
                j.true("frame row", (row["pair"], row["pairp"], row["tknin"], row["tknout"]) ==
                       (x.curve.pair, x.curve.pairp, x.tknin, x.tknout), repr(row))
            for tk in toks:
                v = row.get(tk)
                if tk == x.tknin:
                    j.true("frame amount", v == x.amtin, "%r %r" % (v, x))
                elif tk == x.tknout:
                    j.true("frame amount", v == x.amtout, "%r %r" % (v, x))
                elif tk in row:
                    j.true("frame hole", v == "" if f == Opt.TIF_DFP else v != v, "%s: %r" % (f, v))
        if extra:
            for k, pick in ((0, lambda v: v > 0), (1, lambda v: v < 0), (2, lambda v: True)):
                row = rec[len(tis) + k]
                for tk in toks:
                    if tk in df.columns:
                        vals = [v for x in tis for n_, v in ((x.tknin, x.amtin), (x.tknout, x.amtout)) if n_ == tk and pick(v)]
                        v = row[tk]
                        if not vals:
                            j.true("aggregate", v == 0 or v != v, "%s %s: %r" % (extra[k], tk, v))
                        else:
                            j.eq("aggregate", v, sum(vals), 1e-9, 1e-12 * sum(map(abs, vals)), "%s %s" % (extra[k], tk))
    v, e = call(r.trade_instructions, "rubbish")
    j.true("format", isinstance(e, ValueError), "rubbish format gave %r" % (v,))


def o03_nets(item, t):
    _, nm, idx, scale = item
    j = J(t, ["nets", nm, list(idx), scale])
    cs = curves([(p, a, k * scale, rg) for p, a, k, rg in (NETS[nm][i] for i in idx)])
    toks = components(cs)
    if toks is None:
        return
    o = Opt(CPCContainer(c.c for c in cs))
    for target in toks:
        r, e = call(o.margp_optimizer, target, params=dict(pstart=start(cs, target)))
        t.add("optimizations")
        if not j.true("optimizer", e is None, "raised %r" % (e,)) or r.is_error:
            continue
        P = dict(r.p_optimal); P[target] = 1.0
        want = {}
        for c in cs:
            dx, dy = c.at(P[c.b] / P[c.q])
            want[c.cid] = {c.b: dx, c.q: dy}
        judge_ti(j, t, r, cs, toks, want, "margp " + target)
        # adjusting by explicit amounts
        dxs = [0.0 if i % 2 else want[c.cid][c.b] for i, c in enumerate(cs)]
        n, e = call(o.adjust_curves, dxs)
        if j.true("adjust_curves", e is None and n is not None and len(n) == len(cs), "%r %r" % (n, e)):
            for a, c, d in zip(n, cs, dxs):
                j.eq("adjust_curves", a.x, c.r.x + d, 1e-9); j.eq("adjust_curves k", a.k, c.r.k, 1e-9)
    v, e = call(o.adjust_curves, None)
    j.true("adjust_curves none", v is None and e is None, "%r %r" % (v, e))
    v, e = call(o.adjust_curves, None, raiseonerror=True)
    j.true("adjust_curves none", isinstance(e, ValueError), "%r %r" % (v, e))
    bad = [-cs[0].c.x] + [0.0] * (len(cs) - 1)
    v, e = call(o.adjust_curves, bad)
    j.true("adjust_curves impossible", v is None and e is None, "%r %r" % (v, e))
    v, e = call(o.adjust_curves, bad, raiseonerror=True)
    j.true("adjust_curves impossible", e is not None, "%r" % (v,))


def o03_one(item, t):
    _, lv, idx, scale = item
    j = J(t, ["one", lv, list(idx), scale])
    pair, level = LEVELS[lv]
    cs = curves([(pair, ONE[i][0] * level, ONE[i][1] * scale, ONE[i][2]) for i in idx], tuple(range(1, len(idx), 2)))
    b, q = pair.split("/")
    o = Opt(CPCContainer(c.c for c in cs))
    for tkn in (b, q):
        r, e = call(o.simple_optimizer, tkn)
        t.add("optimizations")
        if not j.true("optimizer", e is None and not r.is_error, "raised %r" % (e,)):
            continue
        pb = r.p_optimal if r.tknx == b else 1 / r.p_optimal
        want = {}
        for c in cs:
            dx, dy = c.at(pb if c.b == b else 1 / pb)
            want[c.cid] = {c.b: dx, c.q: dy}
        judge_ti(j, t, r, cs, sorted((b, q)), want, "simple " + tkn)


# ---------------------------------------------------------------- O04

FUNCS = {  # name: (function of x given the root r, derivative of it)
    "lin": lambda x, r: x - r, "neg": lambda x, r: 3 * (r - x), "cub": lambda x, r: (x - r) ** 3 + (x - r) * r * r,
    "inv": lambda x, r: 1 / r - 1 / x, "sqrt": lambda x, r: sqrt(x) - sqrt(r), "step": lambda x, r: -1.0 if x < r else 1.0,
    "flat": lambda x, r: max(0.0, x - 1.1 * r) + min(0.0, x - 0.9 * r)}
ROOTS = (1e-9, 1e-3, 0.7, 1.0, 42.0, 2e5, 3e9)
BR = ((0.5, 2.0), (0.99, 1.01), (0.001, 1.5), (0.9, 900.0), (1.0, 1.7), (0.3, 1.0))


def o04_items(th):
    for f in FUNCS:
        for r in ROOTS:
            for b in BR:
                yield ("goalseek", f, r, b)
    for x in (-3.0, -0.2, 0.4, 1.0, 2.5):
        for m in (-2.0, 0.0, 0.7, 1.3):
            yield ("minmax", x, m)
    toks = ("ETH", "USDC", "LINK")
    vals = (None, 0, 5, -2.5, "AMMPays", "AMMReceives", "OptimizationVar")
    for v in itertools.product(vals, repeat=3):
        for form in ("set", "str", "none"):
            yield ("sfc", v, form)
    for n in (1, 2, 3, 4):
        for x in ((1.0, 2.0, 3.0, 0.5), (0.0, -2.0, 1e6, 1e-3), (0.3, 0.0, 0.0, -1.0), (1e-11, 0.0, 0.0, 0.0), (-1e-7, 1e-7, -1e-7, 1e-7), (-1e9, 1.0, -1.0, 2.0)):
            yield ("jac", n, x)
    yield ("pos",)
    yield ("pickle",)
    yield ("nocvxpy",)


def o04(item, t):
    j = J(t, list(item))
    B = OptimizerBase
    kind = item[0]
    if kind == "goalseek":
        _, f, r, (lo, hi) = item
        g = lambda x: FUNCS[f](x, r)
        a, b = lo * r, hi * r
        t.add("seeks")
        if f == "neg":
            pass
        v, e = call(B.goalseek, g, a, b)
        if g(a) * g(b) > 0:
            j.true("no sign change", isinstance(e, ValueError), "%r" % (v,))
            return
        if j.true("goalseek", e is None and not v.is_error, "raised %r" % (e,)):
            x = float(v)
            tol = 1.1e-6 * min(1.0, max(abs(a), abs(b))) + 1e-14 * r
            ok = (0.9 * r - tol <= x <= 1.1 * r + tol) if f == "flat" else abs(x - r) <= tol
            if f in ("lin", "neg", "cub", "inv", "sqrt", "step") and g(a) == 0:
                ok = x == a or ok
            j.true("root", ok and a <= x <= b, "%r, expected %r" % (x, r))
            # result
            j.true("result", v.errormsg is None and v.context == {} and v.result == x, repr(v))
        v, e = call(B.goalseek, g, r * 3, r * 4)
        j.true("no sign change", isinstance(e, ValueError), "%r" % (v,))
    elif kind == "minmax":
        _, x0, m = item
        for s in (1.0, -1.0):
            q = lambda x: s * (2 * (x - m) ** 2 + 0.3)
            t.add("seeks")
            j.eq("deriv", B.deriv(q, x0), s * 4 * (x0 - m), 1e-5, 1e-6)
            j.eq("deriv2", B.deriv2(q, x0), s * 4, 0.02)
            for f in (B.findminmax_nr, B.findmin, B.findmax):
                r, e = call(f, q, x0)
                j.true("newton", e is None and not r.is_error and abs(float(r) - m) < 1e-5, "%r %r" % (r, e))
            r = (B.findmin_gd if s > 0 else B.findmax_gd)(q, x0)
            j.true("gradient", abs(float(r) - m) < 1e-5, "%r" % r)
            r = (B.findmin_gd if s > 0 else B.findmax_gd)(q, x0, learning_rate=0.05, N=200)
            j.true("gradient", abs(float(r) - m) < 1e-5, "%r" % r)
            r, e = call(B.findmin, lambda x: 5.0, x0)
            j.true("no extremum", e is None and r.is_error and r.result is None, "%r %r" % (r, e))
            v, e = call(float, r)
            j.true("error is no number", e is not None, repr(v))
    elif kind == "sfc":
        _, vals, form = item
        toks = ("ETH", "USDC", "LINK")
        data = {k: v for k, v in zip(toks, vals) if v is not None}
        tk = {"set": set(toks), "str": " ETH , USDC,LINK ", "none": None}[form]
        all_ = set(toks) if form != "none" else set(data)
        nopt = [k for k, v in data.items() if isinstance(v, str)]
        t.add("constraints")
        s, e = call(SFC, dict(data), tk)
        if len(nopt) != 1:
            j.true("exactly one variable", isinstance(e, AssertionError), "%r accepted" % (data,))
            return
        if not j.true("sfc", e is None, "raised %r" % (e,)):
            return
        j.true("variable", s.optimizationvar == nopt[0], s.optimizationvar)
        j.true("tokens", s.tokens == all_ and s.tokens_l == sorted(all_) and s.tokens_s == ", ".join(sorted(all_)), "%r" % (s.tokens,))
        for k in all_:
            w = data.get(k, 0)
            j.true("get", s.get(k) == w and s(k) == w and s.is_optimizationvar(k) == (k == nopt[0]) and s.is_constraint(k) == (k != nopt[0]), k)
        j.true("asdict", s.asdict() == {k: data.get(k, 0) for k in all_} and s.asdict(short=True) == data
               and dict(s.items()) == s.asdict() and dict(s.items(short=True)) == data, repr(s.asdict()))
        j.true("is_arbsfc", s.is_arbsfc() == all(not v or k == nopt[0] for k, v in data.items()), repr(data))
        for k in ("FOO",) + (("LINK",) if "LINK" not in all_ else ()):
            for f in (s.get, s.is_constraint, s.is_optimizationvar):
                v, e = call(f, k)
                j.true("foreign token", isinstance(e, AssertionError), "%s gave %r" % (k, v))
        if form == "set":
            n, e = call(SFC.new, set(toks), **data)
            j.true("new", e is None and n == s, "%r %r" % (n, e))
            v, e = call(SFC, dict(data, FOO=0), set(toks))
            j.true("foreign token", isinstance(e, AssertionError), "accepted")
            o = Opt(CPCContainer([Crv(("ETH/USDC", 1.0, 1.0, "full"), "a").c, Crv(("LINK/USDC", 1.0, 1.0, "full"), "b").c]))
            j.true("SFC", o.SFC(**data) == s and o.SFCd(data) == s, "")
            a = o.SFCa("ETH")
            j.true("arb", a.optimizationvar == "ETH" and a.is_arbsfc() and o.arb("ETH") == a == SFC.arb("ETH"), repr(a))
    elif kind == "jac":
        _, n, x = item
        x = np.array(x[:n])
        f = lambda z: np.array([sum((i + 1.0) * z[k] * z[k] for k in range(n)) + (7.0 - i) * z[i] for i in range(n)])
        for eps in (None, 1e-7):
            J_, e = call(B.jacobian if hasattr(B, "jacobian") else Opt.jacobian, f, x, **({} if eps is None else dict(eps=eps)))
            t.add("jacobians")
            if j.true("jacobian", e is None and J_.shape == (n, n), "%r" % (e,)):
                sc = max(1.0, float(np.max(np.abs(x))))
                for i in range(n):
                    for k in range(n):
                        h = (eps or 1e-5) * (abs(x[k]) or 1)
                        w = 2 * (i + 1.0) * x[k] + (7.0 - i if i == k else 0.0)
                        y = abs(f(x)[i])
                        j.eq("jacobian", J_[i, k], w, 1e-4, (i + 1) * h * 1.1 + 1e-14 * y / h + 1e-9 * sc, "[%d,%d]" % (i, k))
        j.true("alias", np.array_equal(Opt.J(f, x), Opt.jacobian(f, x)), "")
    elif kind == "pos":
        for v in ((1, -2, 0, 3.5, -0.1), (), (-1,), (0,)):
            for c in (list, tuple, np.array):
                p, n = B.posx(c(v)), B.negx(c(v))
                j.true("posx", list(p) == [x if x > 0 else 0 for x in v], repr(p)); j.true("negx", list(n) == [x if x < 0 else 0 for x in v], repr(n))
                j.true("kind", isinstance(p, np.ndarray) == (c is np.array), "")
        j.true("helpers", list(B.a([1, 2])) == [1, 2] and B.t([1, 2]) == (1, 2) and B.F(lambda x: x * x, range(4)) == [0, 1, 4, 9] and opt.F is B.F, "")
        j.true("error result", B.SimpleResult(result=1, errormsg="x").error if hasattr(B.SimpleResult, "error") else True, "")
    elif kind == "pickle":
        d = tempfile.mkdtemp(prefix="vmc")
        try:
            cs = curves(NETS["main"][:4])
            o = Opt(CPCContainer(c.c for c in cs))
            for nm, kw in (("a", dict(addts=False)), ("b", {})):
                o.pickle(os.path.join(d, nm), **kw) if hasattr(o, "pickle") else None
            fs = sorted(os.listdir(d))
            if fs:
                j.true("files", len(fs) == 2 and fs[0] == "a.optimizer.pickle" and fs[1].startswith("b."), repr(fs))
                for f in fs:
                    q = type(o).unpickle(os.path.join(d, f[:-len(".optimizer.pickle")]))
                    j.true("pickle", [c.asdict() for c in q.CC] == [c.asdict() for c in o.CC], "")
                    j.eq("pickle", q.margp_optimizer("USDC").result, o.margp_optimizer("USDC").result)
        finally:
            shutil.rmtree(d)
    elif kind == "nocvxpy":
        src = ("import sys\nsys.path.insert(0, %r)\nsys.modules['cvxpy'] = None\n"
               "from carbon.tools.optimizer import CPCArbOptimizer as O\nfrom carbon.tools.cpc import ConstantProductCurve as C\n"
               "o = O([C.from_pk(p=2., k=100., pair='A/B', cid='1'), C.from_pk(p=3., k=100., pair='A/B', cid='2')])\n"
               "assert o.margp_optimizer('A').result < -1e-3 and o.simple_optimizer('A').result < -1e-3\n"
               "try:\n o.nofees_optimizer('A')\nexcept AssertionError:\n sys.exit(0)\nsys.exit(3)\n") % core.REPO
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        j.true("works without cvxpy", p.returncode == 0, "exit code %d: %s" % (p.returncode, p.stderr.decode()[-300:]))


# ---------------------------------------------------------------- O05

def o05_items(th):
    for nm in NETS:
        n = range(len(NETS[nm]))
        for k in ((1, 2, 3, 4) if th else (1, 2, 3)):
            for c in itertools.combinations(n, k):
                for kw in ((), ("nominconstr",), ("maxconstr",)):
                    if th or (k < 3 and kw == ()) or sum(c) % 3 == 0:
                        yield (nm, c, kw)


SCALES = [tuple((tk, v ** a) for tk, v in (("ETH", 2000.0), ("USDC", 1.0), ("LINK", 7.0), ("WBTC", 3e4), ("SHIB", 1e-5), ("A", 1.0), ("B", 0.5), ("C", 4.0), ("D", 8.0), ("E", 3.0), ("F", 0.1)))
          for a in (0, 1, -1)]


def o05(item, t):
    nm, idx, flags = item
    j = J(t, [nm, list(idx), list(flags)])
    cs = curves([NETS[nm][i] for i in idx])
    toks = components(cs)
    if toks is None:
        return
    ts = TokenScale.from_tokenscales(**dict(SCALES[sum(idx) % len(SCALES)])) if nm != "names" else None
    C = CPCContainer((c.c for c in cs), tokenscale=ts)
    o = Opt(C)
    sz = size(cs)
    if ts is not None:
        j.true("scale", all(C.tokenscale.scale(tk) == dict(SCALES[sum(idx) % len(SCALES)])[tk] for tk in toks), "")
    scale = {tk: C.tokenscale.scale(tk) for tk in toks}
    kw = {f: True for f in flags}
    for target in toks[:2]:
        others = [x for x in toks if x != target]
        m, e = call(o.margp_optimizer, target, params=dict(pstart=start(cs, target)))
        best = [tuple(v) for v in m.dxdyvalues()] if e is None and not m.is_error else [(0.0, 0.0)] * len(cs)
        amt = 1e-3 * sz[others[0]]
        forms = [("arb", target, {x: 0.0 for x in others}),
                 ("zeros", o.SFCd({target: o.AMMPays, others[0]: 0}), {x: 0.0 for x in others}),
                 ("take", o.SFCd({target: o.OV, others[0]: -amt}), {x: -amt if x == others[0] else 0.0 for x in others}),
                 ("route", o.SFCd({target: o.AMMReceives, others[0]: amt}), {x: amt if x == others[0] else 0.0 for x in others})]
        for fnm, sfc, want in forms:
            r, e = call(o.nofees_optimizer, sfc, nosolve=True, **kw)
            t.add("problems")
            if not j.true("problem", e is None, "raised %r" % (e,)):
                continue
            j.true("unsolved", r.result is None and r.is_error and r.method == "convex" and r.optimizer is o and r.sfc.optimizationvar == target
                   and [c.cid for c in r.curves] == [c.cid for c in cs], repr(r))
            dxv, dyv = r.dx.variable, r.dy.variable
            # candidate points: doing nothing, the arbitrage optimum, and both with one thing changed
            pts = []
            for base in ([(0.0, 0.0)] * len(cs), best):
                pts.append(list(base))
                for i, c in enumerate(cs):
                    x, y = c.r.x, c.r.y
                    dx, dy = base[i]
                    onc = lambda d: (d, c.r.k / (x + d) - y) if d > -0.99 * x else (-0.5 * x, y)
                    one_q = lambda d: (c.r.k / (y + d) - x, d)
                    for alt in (onc(dx - amt) if c.b == others[0] else one_q(dy - amt), one_q(dy + amt),
                                (dx + 0.02 * x, dy), (dx - 0.02 * x, dy), (dx, dy + 0.02 * y), (dx, dy - 0.02 * y),
                                onc(dx + amt if c.b == others[0] else dx + 0.01 * x), onc(-0.5 * c.r.xa), onc(-c.r.xa - 0.1 * (x - c.r.xa)), onc(3 * x), onc(-0.6 * x),
                                (1.5 * x, 1.5 * y), (-1.5 * x, -1.5 * y)):
                        pts.append([alt if k == i else b for k, b in enumerate(base)])
            for pt in pts:
                t.add("points")
                # margin > 0: satisfied with that relative slack
                marg = []
                for (dx, dy), c in zip(pt, cs):
                    x, y = c.r.x, c.r.y
                    u, v = (x + dx) / x, (y + dy) / y
                    marg.append(sqrt(u * v) - 1 if u >= 0 and v >= 0 else -1.0)
                    if "nominconstr" not in flags:
                        marg += [(dx + c.r.xa) / x, (dy + c.r.ya) / y]
                    if "maxconstr" in flags:
                        if c.r.xmax is not None:
                            marg.append((c.r.xmax - x - dx) / x)
                        if c.r.ymax is not None:
                            marg.append((c.r.ymax - y - dy) / y)
                n = {}
                for (dx, dy), c in zip(pt, cs):
                    n[c.b] = n.get(c.b, 0) + dx; n[c.q] = n.get(c.q, 0) + dy
                marg += [-abs(n[x] - want[x]) / sz[x] for x in others]
                w = min(marg)
                if -1e-4 < w < -3e-5:
                    continue
                dxv.value = np.array([d[0] * scale[c.b] for d, c in zip(pt, cs)])
                dyv.value = np.array([d[1] * scale[c.q] for d, c in zip(pt, cs)])
                viol = 0.0
                for con in r.problem.constraints:
                    x = con.violation()
                    x = float(np.max(x)) if x is not None else float("inf")
                    viol = max(viol, x if x == x else float("inf"))
                # smallest unit in which a real violation would show
                unit = min(min(c.r.x, c.r.y, sqrt(c.r.k)) for c in cs)
                unit = min(unit, min(sz[x] * scale[x] for x in toks))
                big = max(max(c.r.x, c.r.y, sqrt(c.r.k)) for c in cs)
                big = max(big, max(sz[x] * scale[x] for x in toks))
                if w >= -3e-5:
                    j.true("feasible", viol <= (1e-9 if w > -1e-12 else 1e-4) * big, "%s %s: a trade that meets all constraints is excluded by %g; %s" % (fnm, target, viol, pt))
                else:
                    j.true("infeasible", viol > 1e-9 * unit, "%s %s: a trade that breaks a constraint is allowed; %s" % (fnm, target, pt))
                ov = r.problem.objective.value
                j.eq("objective", ov, n[target] * scale[target], 1e-9, 1e-12 * sz[target] * scale[target], target)
            j.true("sense", type(r.problem.objective).__name__ == "Minimize", "")
            # read the solution back
            if fnm == "arb" and best is not None:
                dxv.value = np.array([d[0] * scale[c.b] for d, c in zip(best, cs)])
                dyv.value = np.array([d[1] * scale[c.q] for d, c in zip(best, cs)])
                r.problem._status = "optimal"
                if r.is_error:
                    continue
                for a, b, c in zip(r.dxvalues, r.dyvalues, zip(best, cs)):
                    j.eq("dxvalues", a, c[0][0], 1e-9, 1e-12 * c[1].r.x); j.eq("dyvalues", b, c[0][1], 1e-9, 1e-12 * c[1].r.y)
                want_ = {c.cid: {c.b: d[0], c.q: d[1]} for d, c in zip(best, cs)}
                judge_ti(j, t, r, cs, toks, want_, "convex " + target)
                cn = r.curves_new
                if j.true("curves_new", cn is not None and len(cn) == len(cs), ""):
                    for a, d, c in zip(cn, best, cs):
                        j.eq("curves_new", a.x, c.r.x + d[0], 1e-9); j.eq("curves_new k", a.k, c.r.k, 1e-9)
                for inck in (False, True):
                    dct = r.dxdydf(asdict=True, inclk=inck)
                    for row, d, c in zip(dct, best, cs):
                        j.true("dxdydf", (row["cid"], row["pair"], row["tknx"], row["tkny"]) == (c.cid, c.c.pair, c.b, c.q), repr(row))
                        j.eq("dxdydf kk", row["kk"], 1.0, 1e-6); j.eq("dxdydf", row[c.b], d[0], 1e-9, 1e-12 * c.r.x); j.eq("dxdydf", row[c.q], d[1], 1e-9, 1e-12 * c.r.y)
                        j.eq("dxdydf x", row["x"], c.r.x); j.eq("dxdydf y", row["y"], c.r.y); j.eq("dxdydf xa", row["xa"], c.r.xa, 1e-7, 1e-9 * c.r.x); j.eq("dxdydf ya", row["ya"], c.r.ya, 1e-7, 1e-9 * c.r.y)
                df = r.dxdydf(pretty=False)
                row = df.to_dict(orient="index")["total"]
                for x in toks:
                    j.eq("dxdydf total", row[x], sum(w_.get(x, 0) for w_ in want_.values()), 1e-9, 1e-12 * sz[x])


# ---------------------------------------------------------------- driver

BOUNDS = {
    "O01": "all sets of up to 3 (thorough: 4) of 10 curves (all range shapes, inside and outside each other's range) at 5 price levels, in one, mixed or reversed orientation; every result type; both target tokens",
    "O02": "all sets of up to 4 (thorough: 6) connected curves of 5 networks (2-6 tokens, parallel curves, cycles, extreme prices and sizes, names with suffixes), every target token, start prices given, estimated or as frame, curves in other order and orientation",
    "O03": "all sets of up to 3 (thorough: 5) curves of the networks at 3 sizes and of the single-pair curves at 5 price levels; all pairs of 9 amounts for single instructions; every output format",
    "O04": "7 functions x 7 roots x 6 brackets; quadratics; all constraints over 3 tokens and 7 kinds of values; Jacobians to dimension 4",
    "O05": "all sets of up to 3 (thorough: 4) connected curves of 5 networks, 3 token scales, 3 kinds of constraints, with and without optional constraints; every candidate trade of a set that breaks each constraint in turn",
}
FN = {"O01": o01, "O02": o02, "O03": o03, "O04": o04, "O05": o05}
ITEMS = {"O01": o01_items, "O02": o02_items, "O03": o03_items, "O04": o04_items, "O05": o05_items}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=len(it), transitions=tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    FN[pid](_tup(case["case"]), t)
