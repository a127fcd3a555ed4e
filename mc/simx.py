"""Bounded exhaustive exploration of CarbonSimulatorUI histories, in lock-step with a reference model.

A state is the order book (plus the id counter and trade log of the real object).  From every
reached state *every* operation of the scenario's alphabet is applied to the real simulator; the
result and the successor state are compared with the reference model (mc/ref.py curves and the
rules below).  States are deduplicated by their canonical order book."""
import copy
import itertools
import json
import os
import types
from decimal import Decimal

from mc import core, ref
from mc.core import close, num
from mc.ref import Curve

copy._deepcopy_dispatch[types.ModuleType] = copy._deepcopy_atomic

from carbon import CarbonSimulatorUI  # noqa: E402

# ----------------------------------------------------------------------------------------------
# observation
# ----------------------------------------------------------------------------------------------


def observe(sim):
    """{id: (tkn, (base, quote), y, y_int, p_high, p_low, linked id, disabled)}, exact values"""
    out = {}
    for i, o in sim.orders.items():
        out[i] = (o.tkn, (o.pair.tknb, o.pair.tknq), o.y, o.y_int, o.p_high, o.p_low,
                  o.linked_to_id, bool(o.disabled))
    return out


T, PAIR, Y, Z, PA, PB, LID, DIS = range(8)


def sig(x, n=10):
    x = float(x)
    return "%.*e" % (n - 1, x)


def canon(obs):
    return tuple((i, o[T], o[PAIR], sig(o[Y]), sig(o[Z]), sig(o[PA]), sig(o[PB]), o[LID], o[DIS])
                 for i, o in sorted(obs.items()))


def other(o):
    b, q = o[PAIR]
    return q if o[T] == b else b


def curve(o):
    return Curve(o[Y], o[Z], o[PA], o[PB])


def rows(res):
    """the trades data frame of a result as a list of plain dicts"""
    df = res.get("trades")
    if df is None:
        return None
    return df.to_dict("records")


# ----------------------------------------------------------------------------------------------
# operations: JSON-able tuples
# ----------------------------------------------------------------------------------------------

SELLS = ("amm_sells", "trader_buys")
BUYS = ("amm_buys", "trader_sells")


def split(pair):
    b, q = pair.split("/")
    return b, q


class Trade:
    """the meaning of a trade request, independent of how it is phrased"""

    def __init__(self, op, simpair):
        _, fn, tkn, amt, kw = op
        self.kw = kw
        self.pair = split(kw.get("pair") or simpair)
        b, q = self.pair
        self.valid = tkn in (b, q)
        oth = q if tkn == b else b
        sells = fn in SELLS
        self.amt = float(amt)
        if self.amt < 0:
            sells = not sells
            self.amt = -self.amt
        self.by_target = sells
        self.out = tkn if sells else oth         # token leaving the AMM
        self.inn = oth if sells else tkn
        self.execute = kw.get("execute", True)
        self.partial = kw.get("support_partial", False)
        self.limit_price = kw.get("limit_price")
        self.limit_amt = kw.get("limit_amt")
        self.use = kw.get("use_positions")
        self.threshold = kw.get("threshold_orders", 10)

    def eligible(self, obs):
        return [i for i, o in obs.items()
                if set(o[PAIR]) == set(self.pair) and o[T] == self.out and not o[DIS]
                and float(o[Y]) > 0 and (self.use is None or i in self.use)]

    def capacity(self, obs, threshold=None):
        """the largest amount (target or source) that eligible orders can absorb"""
        caps = []
        for i in self.eligible(obs):
            c = curve(obs[i])
            caps.append(c.y if self.by_target else c.max_dx())
        caps.sort(reverse=True)
        return sum(caps[:threshold] if threshold is not None else caps)

    def price(self, out_amt, in_amt):
        """average price in the convention quote per base of the trade's pair"""
        b, q = self.pair
        return out_amt / in_amt if self.out == q else in_amt / out_amt


def apply(sim, op):
    """(result, exception)"""
    kind = op[0]
    if kind == "trade":
        _, fn, tkn, amt, kw = op
        return core.call(getattr(sim, fn), tkn, amt, **kw)
    if kind == "add":
        return core.call(sim.add_strategy, **op[1])
    if kind == "addo":
        return core.call(sim.add_order, **op[1])
    if kind == "del":
        return core.call(sim.delete_strategy if op[2:] == ("s",) else sim.delete_order, op[1])
    if kind == "state":
        return core.call(sim.state, **(op[1] if len(op) > 1 else {}))
    if kind == "liq":
        return core.call(sim.liquidity, *([sim.ASDF] if len(op) > 1 else []))
    raise AssertionError(kind)


def ok(res):
    return isinstance(res, dict) and res.get("success") is True


# ----------------------------------------------------------------------------------------------
# books (initial histories)
# ----------------------------------------------------------------------------------------------

def A(tkn, amt_sell=None, ps=None, pe=None, amt_buy=None, bs=None, be=None, **kw):
    d = dict(tkn=tkn, amt_sell=amt_sell, psell_start=ps, psell_end=pe, amt_buy=amt_buy,
             pbuy_start=bs, pbuy_end=be)
    d.update(kw)
    return ("add", {k: v for k, v in d.items() if v is not None})


def O(tkn, amt, ps, pe, **kw):
    return ("addo", dict(tkn=tkn, amt=amt, p_start=ps, p_end=pe, **kw))


BOOKS = {
    "one": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000)],
    "two": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000), A("ETH", 2, 2100, 2400, 700, 1600, 1200)],
    "flat": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000), A("ETH", 2, 2050, 2050, 500, 1450, 1450)],
    "partfull": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000, y_int_sell=9, y_int_buy=4000),
                 A("ETH", 4, 2100, 2500, 900, 1600, 1300, psell_marginal=2200, pbuy_marginal=1500)],
    "small": [A("ETH", 0.5, 2000, 3000, 0.3, 1500, 1000), A("ETH", 0.02, 2100, 2400, 40, 1600, 1200)],
    "oneside": [O("ETH", 3, 2000, 2600), O("USDC", 1500, 1700, 1100), A("ETH", 1, 2200, 2300)],
    "rev": [A("USDC", 1000, 1500, 1000, 5, 2000, 3000), A("ETH", 1.5, 2300, 2350, 300, 1400, 1350)],
    "multi": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000, pair="ETH/USDC"),
              A("WBTC", 1, 20000, 30000, 9000, 15000, 10000, pair="WBTC/USDC"),
              A("USDC", 700, 1 / 1600, 1 / 1200, 2, 1 / 2100, 1 / 2400, pair="USDC/ETH"),
              A("ETH", 3, 0.1, 0.15, 0.2, 0.08, 0.05, pair="ETH/WBTC")],
    "three": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000), A("ETH", 2, 2100, 2400, 700, 1600, 1200),
              A("ETH", 1, 1900, 1950, 100, 1580, 1570)],
    "five": [A("ETH", 1, 2000, 2200, 200, 1500, 1000), A("ETH", 2, 2100, 2400, 300, 1600, 1200),
             A("ETH", 0.6, 1900, 1950, 100, 1580, 1570), A("ETH", 3, 2050, 2050, 400, 1450, 1450),
             A("ETH", 0.3, 2000, 5000, 600, 1550, 300)],
    "nearflat": [A("ETH", 1, 2000, 2000.02, 900, 1500, 1499.99), A("ETH", 2, 1999, 2050, 300, 1501, 1450)],
    "wide": [A("ETH", 10, 2000, 9000, 1000, 1900, 300), A("ETH", 3, 1950, 1e5, 400, 1000, 1)],
    "tie": [A("ETH", 1, 2000, 2020, 500, 1500, 1480), A("ETH", 1, 2500, 2525, 500, 1400, 1380), A("ETH", 5, 3000, 3030, 2500, 1300, 1280),
            A("ETH", 1, 2500, 2525, 500, 1400, 1380)],
    "scale": [A("ETH", 4e7, 2e-6, 2.5e-6, 30, 1.9e-6, 1.5e-6), A("ETH", 1e4, 1.95e-6, 2.1e-6, 1e3, 1.8e-6, 1e-6)],
    "empty": [],
}


def nice(x):
    return float("%.6g" % x)


def frac_trades(obs, simpair, specs):
    """concrete trade operations for this state.

    specs: list of (fn, tkn, fraction of the capacity, kwargs)"""
    ops = []
    for fn, tkn, f, kw in specs:
        kw = dict(kw)
        k2 = {k: v for k, v in kw.items() if not k.startswith("_")}
        if k2.get("use_positions") == "odd":
            k2["use_positions"] = [i for i in sorted(obs) if i % 4 >= 2]
        elif k2.get("use_positions") == "first":
            k2["use_positions"] = [i for i in sorted(obs) if i < 2]
        probe = Trade(("trade", fn, tkn, -1.0 if kw.get("_neg") else 1.0, k2), simpair)
        mm_threshold = k2.get("threshold_orders") if kw.get("_capth") else None
        cap = probe.capacity(obs, mm_threshold)
        if cap <= 0:
            amt = kw.get("_dry", 1.0)
        else:
            amt = nice(cap * f)
            if cap < 1e-7:
                continue
        if kw.get("_neg"):
            amt = -amt
        # limits relative to the best price obtainable
        lim = kw.get("_limit")
        if lim and cap > 0:
            cs = [curve(obs[i]) for i in probe.eligible(obs)]
            outs, ins = ref.optimum(cs, min(abs(amt), cap), probe.by_target)
            if sum(outs) <= 0 or sum(ins) <= 0:
                continue
            p = probe.price(sum(outs), sum(ins))
            k2["limit_price"] = nice(p * lim)
        lima = kw.get("_limamt")
        if lima and cap > 0:
            cs = [curve(obs[i]) for i in probe.eligible(obs)]
            outs, ins = ref.optimum(cs, min(abs(amt), cap), probe.by_target)
            if sum(outs) <= 0 or sum(ins) <= 0:
                continue
            k2["limit_amt"] = nice((sum(ins) if probe.by_target else sum(outs)) * lima)
        ops.append(("trade", fn, tkn, amt, k2))
    return ops


# ----------------------------------------------------------------------------------------------
# the rules: each reports under the property it belongs to
# ----------------------------------------------------------------------------------------------

DUST = 2e-11      # the simulator rounds amounts to 12 decimals


def eqexact(a, b):
    return all(x == y or (x is None and y is None) for x, y in zip(a, b)) and len(a) == len(b)


def same_book(a, b):
    return list(sorted(a)) == list(sorted(b)) and all(eqexact(a[i], b[i]) for i in a)


def log_of(sim):
    return {str(k): {kk: (vv[0] if isinstance(vv, list) and len(vv) == 1 else vv) for kk, vv in v.items()}
            for k, v in sim.trades.items()}


def rule_trade(cx, pre, op, res, exc, post):
    """all rules about one trade transition.  cx: context with .mm, .simpair, .report(pid, key, msg)"""
    R = cx.report
    tr = Trade(op, cx.simpair)
    mm = cx.mm
    succ = ok(res)
    if exc is not None:
        R("S02", "raise", "trade raised %r although raiseonerror is off" % exc)
    elig = tr.eligible(pre) if tr.valid else []
    cap = tr.capacity(pre) if tr.valid else 0.0
    th = min(tr.threshold or 10, len(elig)) if mm == "alpha" else len(elig)
    cap_th = tr.capacity(pre, th) if tr.valid else 0.0

    if not succ:
        if not same_book(pre, post):
            R("S02", "failed-op-changed-book", "failed trade changed the order book: %s" % diff(pre, post))
        if cx.log_pre != cx.log_post or cx.nt_pre != cx.nt_post:
            R("S02", "failed-op-logged", "failed trade left an entry in the trade log")
        bothlim = tr.limit_price is not None and tr.limit_amt is not None
        feasible = tr.valid and elig and tr.amt > 1e-9 and tr.amt <= cap_th * 0.9999 and not bothlim
        partial_ok = tr.valid and elig and tr.amt > 1e-9 and tr.partial and not bothlim
        if feasible:
            R("S13", "rejected-feasible", "rejected although %.10g <= capacity %.10g: %s" % (
                tr.amt, cap_th, (res or {}).get("error") if isinstance(res, dict) else res))
            if mm == "alpha":
                R("S10", "rejected-feasible", "alpha rejected a trade %d best orders can fill" % th)
        elif partial_ok:
            R("S13", "rejected-partial", "rejected although partial fills are allowed: %s" % (
                (res or {}).get("error") if isinstance(res, dict) else res))
        return None

    rws = rows(res)
    if not rws:
        R("S05", "no-record", "successful trade returned no record")
        return None
    agg = [r for r in rws if bool(r["aggr"])]
    routes = [r for r in rws if not bool(r["aggr"])]
    if len(agg) != 1 or not routes:
        R("S05", "record-shape", "trade record has %d aggregates and %d routes" % (len(agg), len(routes)))
        return None
    agg = agg[0]

    # --- eligibility
    bad = [r["routeix"] for r in routes if r["routeix"] not in elig]
    if bad or not tr.valid:
        R("S07", "ineligible", "routed through %s, eligible %s" % (bad, elig))
        return None
    ids = [r["routeix"] for r in routes]
    if len(set(ids)) != len(ids):
        R("S07", "twice", "an order was used twice in one trade: %s" % ids)
    limited = tr.limit_price is not None or tr.limit_amt is not None
    if tr.limit_price is not None and tr.limit_amt is not None:
        R("S06", "both-limits", "both limit_price and limit_amt were accepted")

    # --- amounts
    fills = {}
    for r in routes:
        fills[r["routeix"]] = (abs(float(r["amt1"])), abs(float(r["amt2"])))
    out_t = sum(v[0] for v in fills.values())
    in_t = sum(v[1] for v in fills.values())
    if not (close(agg["amt1"], out_t, 1e-9, DUST * len(fills)) and close(agg["amt2"], in_t, 1e-9, DUST * len(fills))):
        R("S05", "aggregate", "aggregate (%r,%r) is not the sum of its routes (%r,%r)" % (
            agg["amt1"], agg["amt2"], out_t, in_t))

    # --- liquidity
    got = out_t if tr.by_target else in_t
    over = tr.amt > cap_th * 1.0001
    if over and not tr.partial:
        R("S13", "accepted-infeasible", "accepted %.10g although capacity is %.10g" % (tr.amt, cap_th))
        if mm == "alpha":
            R("S10", "accepted-infeasible", "alpha filled %.10g although %d orders hold only %.10g" % (tr.amt, th, cap_th))
    want = min(tr.amt, cap_th)
    ptol = 1e-6 * want + (1e-9 if not tr.partial else 1e-8)
    if tr.partial and mm == "alpha":
        ptol += 2e-10
    if abs(got - want) > max(ptol, DUST * len(fills)):
        R("S13", "amount", "asked %.12g, can fill %.12g, filled %.12g" % (tr.amt, want, got))

    # --- each fill on its own curve
    for i, (o_, in_) in fills.items():
        c = curve(pre[i])
        if o_ > c.y * (1 + 1e-9) + DUST:
            R("S12", "overdraw", "order %s gave %.12g but held %.12g" % (i, o_, c.y))
            continue
        exp = c.dx_for_dy(min(o_, c.y))
        m = c.marg(max(0.0, c.y - o_))
        if abs(in_ - exp) > 1e-8 * exp + DUST * (1 + 1 / m):
            R("S12", "off-curve", "order %s: %.15g out for %.15g in, curve says %.15g in" % (i, o_, in_, exp))

    # --- optimality
    subset = elig
    if mm == "alpha":
        if len(fills) > (tr.threshold or 10):
            R("S10", "threshold", "%d routes although the limit is %d" % (len(fills), tr.threshold))
        subset = elig if th >= len(elig) else list(fills)
        optimal(cx, "S10", pre, subset, fills, got, tr, in_t, out_t)
    elif mm == "exact":
        optimal(cx, "S09", pre, subset, fills, got, tr, in_t, out_t)
    else:
        greedy(cx, pre, elig, fills, tr)

    # --- limits
    avg = tr.price(out_t, in_t) if out_t > 0 and in_t > 0 else None
    met = True
    border = False
    if limited and avg is not None:
        if tr.limit_price is not None:
            lp = float(tr.limit_price)
        else:
            # least obtained / most paid, per unit of the requested amount
            lo, li = (tr.amt, float(tr.limit_amt)) if tr.by_target else (float(tr.limit_amt), tr.amt)
            lp = tr.price(lo, li)
        buys_base = tr.out == tr.pair[0]
        met = avg <= lp if buys_base else avg >= lp
        border = close(avg, lp, 1e-9, 0)
    if limited and not border:
        flags = {bool(r["limitfail"]) for r in rws if r["limitfail"] is not None}
        if flags != {not met} or any(r["limitfail"] is None for r in rws):
            R("S06", "limitfail-flag", "limit %s but limitfail=%s (price %.10g, limit %s/%s)" % (
                "met" if met else "missed", [r["limitfail"] for r in rws], avg, tr.limit_price, tr.limit_amt))
    if not limited and any(r["limitfail"] is not None for r in rws):
        R("S06", "limitfail-flag", "limitfail set without a limit")

    executed = tr.execute and (met or not limited)
    if border:
        executed = bool(agg["exec"])
    if {bool(r["exec"]) for r in rws} != {executed}:
        p = "S06" if limited else "S05"
        R(p, "exec-flag", "exec flags %s, expected %s" % ([r["exec"] for r in rws], executed))

    # --- effect on the book
    if not executed:
        if not same_book(pre, post):
            R("S06" if (limited and tr.execute) else "S02", "quote-changed-book",
              "a trade that must not execute changed the book: %s" % diff(pre, post))
    else:
        exp = {i: list(o) for i, o in pre.items()}
        for i, (o_, in_) in fills.items():
            exp[i][Y] = float(exp[i][Y]) - o_
        for i, (o_, in_) in fills.items():
            l = pre[i][LID]
            if l != i and l in exp:
                exp[l][Y] = float(exp[l][Y]) + in_
        for i in exp:
            if float(exp[i][Y]) > float(exp[i][Z]) * (1 + 1e-12):
                exp[i][Z] = exp[i][Y]
        conserve(cx, pre, exp, post, fills)

    # --- the record
    record(cx, tr, agg, routes, ids, fills, out_t, in_t, avg)
    return fills


def diff(a, b):
    d = []
    for i in sorted(set(a) | set(b)):
        if i not in a or i not in b:
            d.append("order %s %s" % (i, "appeared" if i in b else "vanished"))
        elif not eqexact(a[i], b[i]):
            d.append("order %s: %s -> %s" % (i, [str(x)[:20] for x in a[i]], [str(x)[:20] for x in b[i]]))
    return "; ".join(d)[:500]


def conserve(cx, pre, exp, post, fills):
    R = cx.report
    if sorted(exp) != sorted(post):
        R("S01", "orders-changed", "a trade added or removed orders: %s" % diff(pre, post))
        return
    for i in exp:
        tol = 1e-10 * float(max(abs(float(exp[i][Y])), 1e-3)) + 4 * DUST
        if abs(float(post[i][Y]) - float(exp[i][Y])) > tol:
            R("S01", "balance", "order %s: balance %.15g after the trade, expected %.15g (before %.15g, fills %s)" % (
                i, float(post[i][Y]), float(exp[i][Y]), float(pre[i][Y]), fills))
        if abs(float(post[i][Z]) - float(exp[i][Z])) > tol + 1e-10 * float(exp[i][Z]):
            R("S04", "capacity", "order %s: capacity %.15g after the trade, expected %.15g (before %.15g)" % (
                i, float(post[i][Z]), float(exp[i][Z]), float(pre[i][Z])))


def rule_always(cx, pre, op, post):
    """what every transition must keep"""
    R = cx.report
    for i, o in post.items():
        y, z = float(o[Y]), float(o[Z])
        if y < -DUST * 4:
            R("S04", "negative", "order %s has balance %.15g" % (i, y))
        if y > z * (1 + 1e-10) + DUST:
            R("S04", "over-capacity", "order %s holds %.15g above its capacity %.15g" % (i, y, z))
        if i in pre:
            if o[PA] != pre[i][PA] or o[PB] != pre[i][PB] or o[DIS] != pre[i][DIS] or o[T] != pre[i][T] or o[PAIR] != pre[i][PAIR]:
                R("S04", "range-changed", "order %s changed its range, token or pair: %s" % (i, diff({i: pre[i]}, {i: o})))
            if float(o[Z]) < float(pre[i][Z]) * (1 - 1e-12):
                R("S04", "capacity-shrunk", "order %s: capacity fell from %s to %s" % (i, pre[i][Z], o[Z]))
        l = o[LID]
        if l != i and (l not in post or post[l][LID] != i):
            R("S03", "dangling", "order %s is linked to %s, which %s" % (
                i, l, "does not exist" if l not in post else "is linked to %s" % post[l][LID]))
        elif l != i:
            if post[l][T] != other(o) or set(post[l][PAIR]) != set(o[PAIR]):
                R("S03", "mislinked", "order %s (%s) is linked to %s (%s)" % (i, o[T], l, post[l][T]))


def optimal(cx, pid, pre, subset, fills, got, tr, in_t, out_t):
    R = cx.report
    cs = {i: curve(pre[i]) for i in subset}
    if got <= 0:
        return
    cap = sum(c.y if tr.by_target else c.max_dx() for c in cs.values())
    outs, ins = ref.optimum(list(cs.values()), min(got, cap), tr.by_target)
    bo, bi = sum(outs), sum(ins)
    n = len(cs)
    if tr.by_target:
        if in_t > bi * (1 + 1e-7) + 1e-9 * n + 1e-11 * bi / max(bo, 1e-30):
            R(pid, "not-best", "trader pays %.15g for %.15g, best possible is %.15g" % (in_t, out_t, bi))
    else:
        if out_t < bo * (1 - 1e-7) - 1e-9 * n:
            R(pid, "not-best", "trader gets %.15g for %.15g, best possible is %.15g" % (out_t, in_t, bo))
    # equal marginal prices at the margin
    part, hi_full, lo_unused = [], [], []
    for i, c in cs.items():
        o_ = fills.get(i, (0.0, 0.0))[0]
        slack = 1e-9 * c.y + 1e-10
        if o_ <= slack:
            lo_unused.append((c.sqm(), i))
        elif o_ >= c.y - slack:
            hi_full.append((c.sqm(0), i))
        else:
            # tolerance grows for steep, tiny curves
            t = (c.A / c.z) * 4e-11 if c.z else 0
            part.append((c.sqm(c.y - o_), t, i))
    if part:
        m = [p[0] for p in part]
        tol = 1e-6 * max(m) + sum(p[1] for p in part)
        if max(m) - min(m) > tol:
            R(pid, "unequal-margins", "marginal prices after the trade differ: %s" % [(p[2], p[0] ** 2) for p in part])
        for s, i in lo_unused:
            if s > min(m) + tol:
                R(pid, "unused-better", "order %s is unused at %.12g, yet others trade down to %.12g" % (i, s * s, min(m) ** 2))
        for s, i in hi_full:
            if s < max(m) - tol:
                R(pid, "drained-worse", "order %s was emptied down to %.12g, others stop at %.12g" % (i, s * s, max(m) ** 2))


def greedy(cx, pre, elig, fills, tr):
    """fast matching: orders ranked by the rate they would give for the whole amount (ties: larger
    fill first when selling a source amount, smaller... see rank()), each filled to its capacity"""
    R = cx.report
    quotes = []
    for i in elig:
        c = curve(pre[i])
        if tr.by_target:
            o_ = min(tr.amt, c.y)
            in_ = c.dx_for_dy(o_)
        else:
            o_ = min(c.dy_for_dx(tr.amt), c.y)
            in_ = c.dx_for_dy(o_)
        quotes.append((o_ / in_ if in_ else 0.0, o_, in_, i))
    # every filled order but the last filled one must be filled to the brim (or to the full amount)
    order = sorted(quotes, key=lambda q: -q[0])
    ranks = {q[3]: q[0] for q in quotes}
    need = tr.amt
    brim = {q[3]: (q[1] if tr.by_target else q[2]) for q in quotes}
    used = set(fills)
    partial_orders = []
    for i, (o_, in_) in fills.items():
        a = o_ if tr.by_target else in_
        if a < brim[i] * (1 - 1e-7) - 1e-9:
            partial_orders.append(i)
    if len(partial_orders) > 1:
        R("S11", "two-partial", "fast matching left two orders partly filled: %s" % partial_orders)
    for i in used:
        for q in order:
            j = q[3]
            if j in used and j not in partial_orders:
                continue
            # j unused or partly filled: no used order may rank strictly below it
            if j != i and ranks[i] < ranks[j] * (1 - 1e-7):
                if j in partial_orders or j not in used:
                    R("S11", "rank", "order %s (rate %.12g) was used before order %s (rate %.12g) was exhausted" % (
                        i, ranks[i], j, ranks[j]))
                    return
    tot = sum((o_ if tr.by_target else in_) for o_, in_ in fills.values())
    want = min(need, sum(brim.values()))
    if abs(tot - want) > 1e-6 * want + 1e-9:
        R("S11", "amount", "fast matching allocated %.12g of %.12g" % (tot, want))


def record(cx, tr, agg, routes, ids, fills, out_t, in_t, avg):
    R = cx.report
    tid = cx.nt_pre
    uids = [str(r["uid"]) for r in routes]
    if str(agg["uid"]) != str(tid) or uids != ["%s.%s" % (tid, k) for k in range(len(routes))]:
        R("S05", "uid", "uids %s / %s for trade number %s" % (agg["uid"], uids, tid))
    if any(int(r["id"]) != tid for r in routes + [agg]):
        R("S05", "id", "trade id %s in a record of trade %s" % ([r["id"] for r in routes], tid))
    if cx.nt_post != cx.nt_pre + 1:
        R("S05", "numtrades", "trade counter went from %s to %s" % (cx.nt_pre, cx.nt_post))
    for r in routes + [agg]:
        if r["tkn1"] != tr.out or r["tkn2"] != tr.inn:
            R("S05", "tokens", "record says %s for %s, trade was %s for %s" % (r["tkn1"], r["tkn2"], tr.out, tr.inn))
        if r["pair"] != tr.pair[0] + tr.pair[1]:
            R("S05", "pair", "record pair %s for %s" % (r["pair"], tr.pair))
        if r["p_unit"] != "%s per %s" % (tr.pair[1], tr.pair[0]):
            R("S05", "p_unit", "record unit %r for pair %s" % (r["p_unit"], tr.pair))
    if avg is not None and not close(agg["price"], avg, 1e-6 + 4e-11 / min(out_t, in_t), 0):
        R("S05", "price", "recorded price %.12g, amounts give %.12g" % (float(agg["price"]), avg))
    for r in routes:
        if r["price"] is not None and avg is not None and not close(r["price"], avg, 1e-6 + 4e-11 / min(out_t, in_t), 0):
            R("S05", "route-price", "route price %.12g, trade average %.12g" % (float(r["price"]), avg))
    if int(agg["nroutes"]) != len(routes):
        R("S05", "nroutes", "nroutes %s for %s routes" % (agg["nroutes"], len(routes)))
    try:
        rix = sorted(json.loads(str(agg["routeix"])))
    except Exception:
        rix = None
    if rix != sorted(ids):
        R("S05", "routeix", "aggregate lists routes %s, routes are %s" % (agg["routeix"], ids))
    # the log holds exactly the old entries plus this trade
    lp, lq = cx.log_pre, cx.log_post
    new = set(uids) | {str(agg["uid"])}
    if set(lq) != set(lp) | new or any(repr(lp[k]) != repr(lq.get(k)) for k in lp):
        R("S05", "log", "trade log is not the old log plus this trade: %s -> %s" % (sorted(lp), sorted(lq)))
    by = cx.sum_partial
    # by source: the aggregate is flagged partial iff less than requested was traded
    if not tr.by_target:
        part = in_t < tr.amt * (1 - 1e-6) - 1e-8
        full = abs(in_t - tr.amt) <= 0
        if part and not bool(agg["partial"]):
            R("S05", "partial-flag", "filled %.12g of %.12g but partial=%s" % (in_t, tr.amt, agg["partial"]))


# ----------------------------------------------------------------------------------------------
# strategies
# ----------------------------------------------------------------------------------------------

def expected_add(op, simpair):
    """None if the call must be rejected, else [(tkn, pair, y, z, pa, pb, disabled)] * 2"""
    from math import sqrt
    kw = dict(op[1])
    if op[0] == "addo":
        kw = dict(tkn=kw["tkn"], amt_sell=kw["amt"], psell_start=kw["p_start"], psell_end=kw["p_end"],
                  psell_marginal=kw.get("p_marginal"), y_int_sell=kw.get("y_int"), pair=kw.get("pair"))
    b, q = split(kw.get("pair") or simpair)
    tkn = kw["tkn"]
    if tkn not in (b, q):
        return None
    tkn2 = q if tkn == b else b
    res = []
    for t, amt, s, e, m, z in (
            (tkn, kw.get("amt_sell"), kw.get("psell_start"), kw.get("psell_end"), kw.get("psell_marginal"), kw.get("y_int_sell")),
            (tkn2, kw.get("amt_buy"), kw.get("pbuy_start"), kw.get("pbuy_end"), kw.get("pbuy_marginal"), kw.get("y_int_buy"))):
        amt = 0.0 if amt is None else float(amt)
        if (s is None) != (e is None):
            return None
        if m is not None and z is not None:
            return None
        if z is not None and float(z) < amt:
            return None
        if s is None:
            res.append((t, (b, q), amt, amt if z is None else float(z), 0.0, 0.0, True))
            continue
        conv = (lambda p: float(p)) if t == q else (lambda p: 1 / float(p))
        pa, pb = max(conv(s), conv(e)), min(conv(s), conv(e))
        if z is not None:
            zz = float(z)
        elif m is not None:
            zz = amt * (sqrt(pa) - sqrt(pb)) / (sqrt(conv(m)) - sqrt(pb))
        else:
            zz = amt
        res.append((t, (b, q), amt, zz, pa, pb, False))
    return res


def rule_add(cx, pre, op, res, exc, post):
    R = cx.report
    exp = expected_add(op, cx.simpair)
    succ = ok(res)
    if exc is not None:
        R("S02", "raise", "adding raised %r although raiseonerror is off" % exc)
    if not succ:
        if not same_book(pre, post):
            R("S03", "half-added", "a failed add changed the book: %s" % diff(pre, post))
            R("S02", "failed-op-changed-book", "a failed add changed the book: %s" % diff(pre, post))
        if exp is not None:
            R("S17", "rejected-valid", "valid strategy rejected: %s" % ((res or {}).get("error") if isinstance(res, dict) else res))
        return
    if exp is None:
        R("S17", "accepted-invalid", "invalid strategy accepted: %s" % (op,))
        return
    new = sorted(set(post) - set(pre))
    if len(new) != 2:
        R("S03", "not-two", "adding a strategy created orders %s" % new)
        return
    for i in pre:
        if i not in post or not eqexact(pre[i], post[i]):
            R("S03", "add-touched-others", "adding a strategy changed order %s" % i)
    if any(i in cx.ever for i in new):
        R("S03", "id-reused", "order ids %s were used before (%s)" % (new, sorted(cx.ever)))
    a, b = new
    if post[a][LID] != b or post[b][LID] != a:
        R("S03", "unlinked", "new orders %s are linked to %s, %s" % (new, post[a][LID], post[b][LID]))
    got = {post[i][T]: post[i] for i in new}
    for t, pr, y, z, pa, pb, dis in exp:
        o = got.get(t)
        if o is None:
            R("S17", "token", "no order sells %s" % t)
            continue
        g = (o[PAIR], float(o[Y]), float(o[Z]), float(o[PA]), float(o[PB]), o[DIS])
        if not (o[PAIR] == pr and close(g[1], y, 1e-12) and close(g[2], z, 1e-9) and close(g[3], pa, 1e-9, 0)
                and close(g[4], pb, 1e-9, 0) and g[5] == dis):
            R("S17", "parameters", "order for %s is (pair,y,cap,pa,pb,disabled)=%s, expected %s" % (t, g, (pr, y, z, pa, pb, dis)))
    # the returned view of the new orders
    try:
        check_views(cx, "S17", "result", res["orders"].to_dict("records"), res["orderuis"], {i: post[i] for i in new})
        want = op[1].get("carbon_id") or ""
        if any((r.get("cid") or "") != want for r in res["orders"].to_dict("records")):
            R("S17", "carbon id", "carbon id %r shown as %s" % (want, [r.get("cid") for r in res["orders"].to_dict("records")]))
    except Exception as e:
        R("S17", "returned", "result of add unusable: %r" % e)


def rule_del(cx, pre, op, res, exc, post):
    R = cx.report
    i = op[1]
    if exc is not None:
        R("S03", "delete-raised", "deleting order %s raised %r" % (i, exc))
        if not same_book(pre, post):
            R("S02", "failed-op-changed-book", "failed delete changed the book: %s" % diff(pre, post))
        return
    if i not in pre:
        if not same_book(pre, post) or list(res) != []:
            R("S03", "delete-unknown", "deleting unknown order %s: returned %s, %s" % (i, res, diff(pre, post)))
        return
    gone = {i, pre[i][LID]}
    exp = {k: v for k, v in pre.items() if k not in gone}
    if not same_book(exp, post):
        R("S03", "delete-unit", "deleting order %s (linked %s) left %s" % (i, pre[i][LID], diff(exp, post)))
    if set(res) != gone or len(res) != len(gone):
        R("S03", "delete-result", "deleting %s returned %s" % (i, res))


# ----------------------------------------------------------------------------------------------
# views
# ----------------------------------------------------------------------------------------------

def rule_state(cx, sim, pre, res, exc, post, kw=None):
    R = cx.report
    kw = kw or {}
    if kw.get("pair"):
        sel = [kw["pair"]] if isinstance(kw["pair"], str) else kw["pair"]
        listed = {i: o for i, o in pre.items() if o[PAIR][0] + o[PAIR][1] in sel}
    else:
        listed = pre
    if not listed and pre:
        if not same_book(pre, post):
            R("S15", "state-mutates", "state() changed the book: %s" % diff(pre, post))
        return              # nothing to list for this pair: how that is said is not documented
    if exc is not None or not isinstance(res, dict) or "orders" not in res:
        R("S15", "state-raised", "state() failed: %r %r" % (exc, res if not isinstance(res, dict) else res.get("error")))
        return
    if not same_book(pre, post):
        R("S15", "state-mutates", "state() changed the book: %s" % diff(pre, post))
    df = res["orders"]
    rws = df.to_dict("records") if len(df) else []
    if not check_views(cx, "S15", "state", rws, res["orderuis"], listed):
        return
    # trade history
    tdf = res["trades"]
    if kw.get("inclhistory", True) is False:
        if tdf is not False and tdf is not None and len(tdf):
            R("S15", "history", "state without history shows %s trade rows" % len(tdf))
        return
    got = tdf.to_dict("records") if tdf is not None and tdf is not False and len(tdf) else []
    if len(got) != len(cx.log_pre):
        R("S15", "history", "state shows %s trade rows, log has %s" % (len(got), len(cx.log_pre)))
        return
    for g, (uid, w) in zip(got, cx.log_pre.items()):
        for f in ("uid", "id", "amt1", "amt2", "tkn1", "tkn2", "pair", "price", "exec", "nroutes", "aggr", "partial"):
            if f in w and not (g.get(f) == w[f] or (isinstance(w[f], float) and close(g.get(f) or 0.0, w[f], 1e-12))):
                R("S15", "history", "state shows %s=%r for trade %s, log has %r" % (f, g.get(f), uid, w[f]))
                return


def check_views(cx, pid, what, rws, oui, listed):
    """rows and UI objects against the orders they present"""
    R = cx.report
    if sorted(r["id"] for r in rws) != sorted(listed) or sorted(oui) != sorted(listed):
        R(pid, "ids", "%s lists %s / %s, book has %s" % (what, [r["id"] for r in rws], sorted(oui), sorted(listed)))
        return False
    for r in rws:
        o = listed[r["id"]]
        b, q = o[PAIR]
        conv = (lambda p: p) if o[T] == q else (lambda p: 1 / p)
        exp = dict(pair=b + q, tkn=o[T], y_unit=o[T], lid=o[LID], disabled=o[DIS], p_unit="%s per %s" % (q, b))
        for k, v in exp.items():
            if r[k] != v:
                R(pid, "column-" + k, "order %s: %s shows %s=%r, expected %r" % (r["id"], what, k, r[k], v))
        if not close(r["y"], o[Y], 1e-12) or not close(r["y_int"], o[Z], 1e-12):
            R(pid, "balance", "order %s: %s shows y=%r y_int=%r, order has %s, %s" % (r["id"], what, r["y"], r["y_int"], o[Y], o[Z]))
        u = oui[r["id"]]
        if not close(u.y, o[Y], 1e-12) or not close(u.yint, o[Z], 1e-12) or u.tkn != o[T] or u.id != r["id"] \
                or (u.pair.tknb, u.pair.tknq) != o[PAIR] or bool(u.disabled) != bool(o[DIS]):
            R(pid, "orderui", "order %s: UI object shows %r (y=%r yint=%r)" % (r["id"], u, u.y, u.yint))
        if u.linked is None or u.linked is not oui[o[LID]]:
            R(pid, "orderui-link", "order %s: UI object is not linked to order %s" % (r["id"], o[LID]))
        if not o[DIS]:
            c = curve(o)
            if not (close(r["p_start"], conv(c.pa), 1e-9, 0) and close(r["p_end"], conv(c.pb), 1e-9, 0)):
                R(pid, "range", "order %s: %s shows range %r..%r, order has %r..%r" % (
                    r["id"], what, r["p_start"], r["p_end"], conv(c.pa), conv(c.pb)))
            if not (close(u.pa, conv(c.pa), 1e-9, 0) and close(u.pb, conv(c.pb), 1e-9, 0)):
                R(pid, "orderui-range", "order %s: UI object shows range %r..%r, order has %r..%r" % (
                    r["id"], u.pa, u.pb, conv(c.pa), conv(c.pb)))
            if c.z > 0 and not (close(r["p_marg"], conv(c.marg()), 1e-8, 0) and close(u.p_marg, conv(c.marg()), 1e-8, 0)):
                R(pid, "marginal", "order %s: %s shows marginal price %r, %r, curve says %r" % (
                    r["id"], what, r["p_marg"], u.p_marg, conv(c.marg())))
    return True


def rule_liquidity(cx, sim, pre, res, exc, post):
    R = cx.report
    if exc is not None:
        R("S15", "liquidity-raised", "liquidity() raised %r" % exc)
        return
    if not same_book(pre, post):
        R("S15", "liquidity-mutates", "liquidity() changed the book")
    exp = {}
    for i, o in pre.items():
        k = o[PAIR][0] + o[PAIR][1]
        exp.setdefault(k, {}).setdefault(o[T], 0.0)
        exp[k][o[T]] += float(o[Y])
    if not pre:
        if res:
            R("S15", "liquidity", "liquidity() of an empty book is %s" % res)
        return
    if hasattr(res, "to_dict"):         # as table
        tab = {}
        for (p, t), v in res["y"].to_dict().items():
            tab.setdefault(p, {})[t] = v
        res = tab
    if not isinstance(res, dict) or sorted(res) != sorted(exp):
        R("S15", "liquidity", "liquidity() shows %s, expected %s" % (res, exp))
        return
    for p in exp:
        if sorted(exp[p]) != sorted(res[p]) or any(not close(exp[p][t], res[p][t], 1e-10) for t in exp[p]):
            R("S15", "liquidity", "liquidity() shows %s, expected %s" % (res, exp))


# ----------------------------------------------------------------------------------------------
# the explorer
# ----------------------------------------------------------------------------------------------

class Cx:
    sum_partial = None

    def __init__(self, mm, simpair, want, tally, scen):
        self.mm, self.simpair, self.want, self.tally, self.scen = mm, simpair, want, tally, scen
        self.history = []

    def report(self, pid, key, msg):
        if pid in self.want:
            self.tally.violation("%s:%s" % (self.mm, key), "%s  [after %d operations, book %s, %s]" % (
                msg, len(self.history), self.scen["book"], self.mm),
                {"scen": {k: self.scen[k] for k in ("mm", "book", "pair")}, "history": list(self.history)})


def step(cx, sim, op, ever):
    """apply op to sim (which is modified) and judge it"""
    pre = observe(sim)
    cx.log_pre, cx.nt_pre = log_of(sim), sim.numtrades
    cx.ever = ever
    res, exc = apply(sim, op)
    post = observe(sim)
    cx.log_post, cx.nt_post = log_of(sim), sim.numtrades
    k = op[0]
    if k == "trade":
        rule_trade(cx, pre, op, res, exc, post)
    elif k in ("add", "addo"):
        rule_add(cx, pre, op, res, exc, post)
    elif k == "del":
        rule_del(cx, pre, op, res, exc, post)
    elif k == "state":
        rule_state(cx, sim, pre, res, exc, post, op[1] if len(op) > 1 else None)
    elif k == "liq":
        rule_liquidity(cx, sim, pre, res, exc, post)
    if k in ("add", "addo", "del", "state", "liq") and (cx.log_pre != cx.log_post or cx.nt_pre != cx.nt_post):
        cx.report("S05", "log-touched", "%s changed the trade log" % k)
    rule_always(cx, pre, op, post)
    return res, post


def fresh(scen):
    sim = CarbonSimulatorUI(pair=scen["pair"], matching_method=scen["mm"])
    return sim


def explore(item, tally):
    """item: (scen, first): explore the part of the tree that starts with operation number `first`"""
    scen, first, want = item
    cx = Cx(scen["mm"], scen["pair"], want, tally, scen)
    sim = fresh(scen)
    ever = set()
    for op in BOOKS[scen["book"]]:
        core.arm()
        cx.history.append(op)
        step(cx, sim, op, set(ever))
        ever |= set(observe(sim))
    key0 = canon(observe(sim))
    tally.seen("states", (scen["mm"], scen["book"], key0))
    alphabet = ALPHABETS[scen["alphabet"]]
    frontier = [(sim, list(cx.history), ever)]
    for depth in range(scen["depth"]):
        nxt = []
        for s, hist, ev in frontier:
            ops = alphabet(observe(s), scen)
            if depth == 0:
                ops = ops[first::scen["stride"]]
            for op in ops:
                core.arm()
                c = copy.deepcopy(s)
                cx.history = hist + [op]
                pre = observe(c)
                res, post = step(cx, c, op, ev)
                tally.add("transitions")
                tally.add("trades_ok" if ok(res) and op[0] == "trade" else op[0] + "_other")
                tally.seen("outcomes", (op[0], ok(res), canon(post)))
                k = canon(post)
                cx.history = hist + [op]
                leaf = True
                if tally.seen("states", (scen["mm"], scen["book"], k)):
                    tally.sample({"matching": scen["mm"], "book": scen["book"], "history": hist + [op]})
                    if depth + 1 < scen["depth"]:
                        nxt.append((c, hist + [op], ev | set(post)))
                        leaf = False
                if leaf:
                    tally.add("complete_histories")
        frontier = nxt


def run(pid, scens):
    items = []
    for sc in scens:
        n = sc.setdefault("stride", 4)
        for f in range(n):
            items.append((sc, f, (pid,)))
    # longest first
    items.sort(key=lambda it: -(it[0]["depth"] * 100 + len(BOOKS[it[0]["book"]])))
    t = core.run_tasks(explore, items)
    cov = dict(states=len(t.sets.get("states", ())), transitions=t.n.get("transitions", 0),
               traces_validated_against_impl=t.n.get("complete_histories", 0),
               distinct_outcomes=len(t.sets.get("outcomes", ())), exhaustive=True,
               bounds=[{k: s[k] for k in ("mm", "book", "alphabet", "depth")} for s in scens])
    return t, cov


def replay_case(pid, case, tally):
    scen = dict(case["scen"], alphabet="", depth=0)
    cx = Cx(scen["mm"], scen["pair"], (pid,), tally, scen)
    sim = fresh(scen)
    ever = set()
    for op in case["history"]:
        op = tuple(op)
        cx.history.append(op)
        step(cx, sim, op, set(ever))
        ever |= set(observe(sim))


ALPHABETS = {}


def alphabet(f):
    ALPHABETS[f.__name__] = f
    return f
