"""Simulator properties that relate several executions: equivalent phrasings (S08), path
independence and closed loops (S14), independence of simulators (S16), error modes (S18)."""
import copy
import itertools
from decimal import Decimal

from mc import core, simx, sim_props, ref
from mc.core import close
from mc.simx import (A, O, BOOKS, Trade, apply, canon, curve, observe, ok, rows, fresh, frac_trades,
                     nice, same_book, diff, Y, Z, T, PAIR, LID, DIS)
from mc.sim_props import specs, ETHUSDC
from carbon import CarbonSimulatorUI, CarbonPair


def build(scen, hist=None):
    sim = fresh(scen)
    for op in (BOOKS[scen["book"]] if hist is None else hist):
        apply(sim, op)
    return sim


def near(a, b, rel=1e-9, abs_=1e-10):
    if sorted(a) != sorted(b):
        return "orders %s vs %s" % (sorted(a), sorted(b))
    for i in a:
        if a[i][T] != b[i][T] or a[i][LID] != b[i][LID] or a[i][DIS] != b[i][DIS]:
            return "order %s differs: %s vs %s" % (i, a[i], b[i])
        for f in (Y, Z, simx.PA, simx.PB):
            if not close(a[i][f], b[i][f], rel, abs_):
                return "order %s field %s: %.15g vs %.15g" % (i, ("", "", "y", "y_int", "p_high", "p_low")[f], float(a[i][f]), float(b[i][f]))
    return None


def reach(scen, tally, depth, alpha):
    """breadth-first reachable states as (sim, history)"""
    sim = build(scen)
    hist = list(BOOKS[scen["book"]])
    seen = {canon(observe(sim))}
    tally.seen("states", (scen["mm"], scen["book"], canon(observe(sim))))
    out = [(sim, hist)]
    level = [(sim, hist)]
    for _ in range(depth):
        nxt = []
        for s, h in level:
            for op in alpha(observe(s), scen):
                core.arm()
                c = copy.deepcopy(s)
                apply(c, op)
                tally.add("transitions")
                k = canon(observe(c))
                if k not in seen:
                    seen.add(k)
                    tally.seen("states", (scen["mm"], scen["book"], k))
                    nxt.append((c, h + [op]))
        out += nxt
        level = nxt
    return out


def fills(res):
    """(out, in) totals, {order: (out, in)}, price"""
    if not ok(res):
        return None
    r = rows(res)
    ag = [x for x in r if bool(x["aggr"])][0]
    return (abs(float(ag["amt1"])), abs(float(ag["amt2"])),
            {x["routeix"]: (abs(float(x["amt1"])), abs(float(x["amt2"]))) for x in r if not bool(x["aggr"])},
            float(ag["price"]), ag["tkn1"], ag["tkn2"], ag["exec"], ag["limitfail"])


# ---------------------------------------------------------------------------------- S08

def phrasings(tkn, amt, by_target, kw, oth):
    """(label, operation, price is inverted)"""
    sell, buy = "amm_sells", "amm_buys"
    if by_target:
        base = [("amm_sells", sell, amt, {}), ("trader_buys", "trader_buys", amt, {}), ("negative amm_buys", buy, -amt, {}),
                ("negative trader_sells", "trader_sells", -amt, {})]
    else:
        base = [("amm_buys", buy, amt, {}), ("trader_sells", "trader_sells", amt, {}), ("negative amm_sells", sell, -amt, {}),
                ("negative trader_buys", "trader_buys", -amt, {})]
    out = []
    for lab, fn, a, k in base:
        out.append((lab, ("trade", fn, tkn, a, dict(kw, **k)), False))
        out.append((lab + ", explicit pair", ("trade", fn, tkn, a, dict(kw, pair="ETH/USDC")), False))
        out.append((lab + ", reversed pair", ("trade", fn, tkn, a, dict(kw, pair="USDC/ETH")), True))
    lab, fn, a, k = base[0]
    out.append((lab + ", Decimal amount", ("trade", fn, tkn, Decimal(repr(a)), dict(kw)), False))
    out.append((lab + ", pair object", ("trade", fn, tkn, a, dict(kw, pair=CarbonPair("ETH/USDC"))), False))
    out.append((lab + ", reversed pair object", ("trade", fn, tkn, a, dict(kw, pair=CarbonPair("ETH/USDC").reverse)), True))
    out.append((lab + ", defaults spelled out", ("trade", fn, tkn, a, dict(dict(inpair=True, limit_price=None, limit_amt=None), **kw)), False))
    return out


def s08(item, tally):
    scen, first, stride, depth = item
    states = reach(scen, core.Tally() if first else tally, depth, sim_props.trade2)
    for n, (s, hist) in enumerate(states):
        obs = observe(s)
        cases = []
        for tkn in ("ETH", "USDC"):
            for by_target in (True, False):
                for f in (0.15, 0.8, 1.5):
                    for kw in ({}, {"execute": False}, {"use_positions": [i for i in obs if i < 2]}, {"support_partial": True},
                               {"_limit": 0.96}, {"_limit": 1.04}, {"threshold_orders": 1}, {"_limamt": 0.96}, {"_limamt": 1.04},
                               {"use_positions": []}, {"use_positions": [77, 1, 0]}):
                        cases.append((tkn, by_target, f, kw))
        for ci, (tkn, by_target, f, kw) in enumerate(cases):
            if (ci + n) % stride != first:
                continue
            core.arm()
            kw = dict(kw)
            lim = kw.pop("_limit", None)
            lima = kw.pop("_limamt", None)
            fn = "amm_sells" if by_target else "amm_buys"
            tr = Trade(("trade", fn, tkn, 1.0, kw), scen["pair"])
            cap = tr.capacity(obs)
            if cap <= 1e-6 and kw.get("use_positions") != []:
                continue
            amt = nice(cap * f) or 1.0
            if lim:
                outs, ins = ref.optimum([curve(obs[i]) for i in tr.eligible(obs)], min(amt, cap), by_target)
                p = tr.price(sum(outs), sum(ins))
                kw["limit_price"] = nice(p * lim)
            if lima:
                outs, ins = ref.optimum([curve(obs[i]) for i in tr.eligible(obs)], min(amt, cap), by_target)
                kw["limit_amt"] = nice((sum(ins) if by_target else sum(outs)) * lima)
            oth = "USDC" if tkn == "ETH" else "ETH"
            base = None
            for lab, op, inv in phrasings(tkn, amt, by_target, kw, oth):
                if inv and "limit_price" in op[4]:
                    op = op[:4] + (dict(op[4], limit_price=1 / op[4]["limit_price"]),)
                c = copy.deepcopy(s)
                res, exc = apply(c, op)
                tally.add("evaluations")
                got = (ok(res), fills(res), observe(c))
                if exc is not None:
                    tally.violation(scen["mm"] + ":raise", "%s raised %r" % (lab, exc), rep(scen, hist, op))
                    continue
                tally.seen("outcomes", (scen["mm"], got[0], canon(got[2]), tkn, by_target))
                if base is None:
                    base = (lab, op) + got
                    continue
                d = None
                if got[0] != base[2]:
                    d = "success %s vs %s (%s)" % (base[2], got[0], res.get("error"))
                else:
                    d = near(base[4], got[2])
                    if d is None and got[0]:
                        a, b = base[3], got[1]
                        if set(a[2]) != set(b[2]) or any(not (close(a[2][i][0], b[2][i][0], 1e-9) and close(a[2][i][1], b[2][i][1], 1e-9)) for i in a[2]):
                            d = "fills %s vs %s" % (a[2], b[2])
                        elif a[4:6] != b[4:6] or bool(a[6]) != bool(b[6]) or a[7] != b[7]:
                            d = "record %s vs %s" % (a[4:], b[4:])
                        elif not close(a[3], 1 / b[3] if inv else b[3], 1e-9, 0):
                            d = "price %r vs %r%s" % (a[3], b[3], " (reversed)" if inv else "")
                if d:
                    tally.violation("%s:phrasing" % scen["mm"], "%s %s and %s %s differ: %s" % (base[0], base[1], lab, op, d),
                                    rep(scen, hist, base[1], op))
                else:
                    tally.sample({"matching": scen["mm"], "book": scen["book"], "one": repr(base[1]), "other": repr(op), "result": base[3] and base[3][:2]})


def rep(scen, hist, *ops):
    return {"scen": {k: scen[k] for k in ("mm", "book", "pair")}, "history": hist, "operations": [repr(o) for o in ops]}


# the same liquidity, described from either token or with start/end in either order
EQUIV_ADDS = [
    (A("ETH", 5, 2000, 3000, 1000, 1500, 1000), [A("USDC", 1000, 1500, 1000, 5, 2000, 3000),
                                                 A("ETH", 5, 3000, 2000, 1000, 1000, 1500),
                                                 A("USDC", 1000, 1 / 1500, 1 / 1000, 5, 1 / 2000, 1 / 3000, pair="USDC/ETH"),
                                                 A("ETH", 5, 1 / 2000, 1 / 3000, 1000, 1 / 1500, 1 / 1000, pair="USDC/ETH")]),
    (A("ETH", 5, 2000, 3000, 1000, 1500, 1000, y_int_sell=8, pbuy_marginal=1300),
     [A("USDC", 1000, 1500, 1000, 5, 2000, 3000, y_int_buy=8, psell_marginal=1300),
      A("ETH", 5, 1 / 2000, 1 / 3000, 1000, 1 / 1500, 1 / 1000, pair="USDC/ETH", y_int_sell=8, pbuy_marginal=1 / 1300)]),
    (A("ETH", 5, 2000, 3000, 1000, 1500, 1000, psell_marginal=2200, pbuy_marginal=1300),
     [A("USDC", 1000, 1500, 1000, 5, 2000, 3000, pbuy_marginal=2200, psell_marginal=1300),
      A("USDC", 1000, 1000, 1500, 5, 3000, 2000, pbuy_marginal=2200, psell_marginal=1300),
      A("ETH", 5, 3000, 2000, 1000, 1000, 1500, psell_marginal=2200, pbuy_marginal=1300),
      A("ETH", 5, 1 / 3000, 1 / 2000, 1000, 1 / 1000, 1 / 1500, pair="USDC/ETH", psell_marginal=1 / 2200, pbuy_marginal=1 / 1300)]),
    (O("USDC", 1000, 1500, 1000, p_marginal=1300),
     [O("USDC", 1000, 1000, 1500, p_marginal=1300), O("USDC", 1000, 1 / 1500, 1 / 1000, p_marginal=1 / 1300, pair="USDC/ETH"),
      A("USDC", 1000, 1500, 1000, psell_marginal=1300), A("ETH", None, None, None, 1000, 1000, 1500, pbuy_marginal=1300)]),
    (O("ETH", 2, 2000, 3000, y_int=5),
     [O("ETH", 2, 3000, 2000, y_int=5), O("ETH", 2, 1 / 3000, 1 / 2000, y_int=5, pair="USDC/ETH"),
      A("ETH", 2, 3000, 2000, y_int_sell=5), A("USDC", None, None, None, 2, 2000, 3000, y_int_buy=5)]),
]


def s08_adds(item, tally):
    mm, k = item
    base, alts = EQUIV_ADDS[k]
    scen = {"mm": mm, "book": "empty", "pair": "ETH/USDC"}
    extra = A("ETH", 1, 2100, 2300, 300, 1450, 1300)
    for alt in alts:
        for op in [("trade", fn, t, a, {}) for fn in ("amm_sells", "amm_buys") for t in ("ETH", "USDC") for a in (0.01, 0.3, 2, 400)]:
            core.arm()
            r = []
            for ad in (base, alt):
                s = build(scen, [ad, extra])
                res, exc = apply(s, op)
                o = observe(s)
                f = fills(res)
                bytok = {}
                for i, v in o.items():
                    bytok.setdefault((v[T], i // 2), []).append((float(v[Y]), float(v[Z])))
                r.append((ok(res), f and (f[0], f[1], f[3]), bytok))
                tally.add("transitions")
                tally.seen("states", (mm, canon(o)))
            a, b = r
            tally.add("evaluations")
            bad = a[0] != b[0] or (a[0] and not all(close(x, y, 1e-9) for x, y in zip(a[1], b[1]))) or sorted(a[2]) != sorted(b[2]) \
                or any(not close(x, y, 1e-9) for kk in a[2] for u, v in zip(a[2][kk], b[2][kk]) for x, y in zip(u, v))
            if bad:
                tally.violation("%s:add-phrasing" % mm, "%s and %s give different markets under %s: %s vs %s" % (base, alt, op, a, b),
                                {"adds": [repr(base), repr(alt)], "op": repr(op)})


def s08_pairs(item, tally):
    """the pair given once for the simulator, or with every call, as text or as object"""
    from carbon import CarbonSimulatorUI
    from carbon.pair import CarbonPair
    mm, raw = item
    toks = raw and raw.split("/")
    for form in ((str, CarbonPair) if raw else (lambda r: r,)):
        for roe in (False, True):
            core.arm()
            s = CarbonSimulatorUI(pair=form(raw), matching_method=mm, raiseonerror=roe)
            bad = []
            want = dict(default_basetoken=toks and toks[0], tknb=toks and toks[0], default_quotetoken=toks and toks[1], tknq=toks and toks[1], slashpair=raw)
            for k, w in want.items():
                v = getattr(s, k)
                tally.add("evaluations")
                if v != w:
                    bad.append("%s = %r, expected %r" % (k, v, w))
            if bool(s.carbon_pair) != bool(raw) or (raw and s.carbon_pair.slashpair != raw):
                bad.append("carbon_pair = %r" % (s.carbon_pair,))
            for other in (None, "ETH/USDC", "USDC/ETH", "WBTC/ETH"):
                for f2 in ((str, CarbonPair) if other else (lambda r: r,)):
                    eff = other or raw
                    v, e = core.call(s.get_carbon_pair, f2(other))
                    c, e2 = core.call(s.price_convention, f2(other))
                    tally.add("evaluations", 2)
                    if eff is None:
                        if not isinstance(e, ValueError) or not isinstance(e2, ValueError):
                            bad.append("no pair at all: %r %r %r %r" % (v, e, c, e2))
                    elif e or e2 or v.slashpair != eff or c.replace(" ", "").replace("per", "/") != "/".join(reversed(eff.split("/"))):
                        bad.append("pair %s: %r %r %r %r" % (other, v, c, e, e2))
            # a market without pair does not accept anything; with the pair in every call it is the market with the default pair
            res = []
            for given in (True, False):
                m = s if not given else CarbonSimulatorUI(pair=None, matching_method=mm, raiseonerror=roe)
                kw = dict(pair="ETH/USDC") if given or raw is None else {}
                if raw is None and not given:
                    for fn, a in ((m.add_strategy, ("ETH", 1, 2000, 3000, 1000, 1500, 1000)), (m.add_order, ("ETH", 1, 2000, 3000)), (m.amm_sells, ("ETH", 1)), (m.amm_buys, ("ETH", 1))):
                        r, e = core.call(fn, *a)
                        tally.add("evaluations")
                        if (roe and e is None) or (not roe and (e is not None or r["success"])) or m.orders or m.trades:
                            bad.append("%s without pair: %r %r" % (fn.__name__, r, e))
                if raw == "USDC/ETH":
                    kw = dict(pair="ETH/USDC")
                for a in ((1, 2000, 3000, 1000, 1500, 1000), (2, 2100, 2100, 0, 1000, 900)):
                    core.call(m.add_strategy, "ETH", *a, **kw)
                out = []
                for fn, tkn, a in ((m.amm_sells, "ETH", 0.5), (m.amm_buys, "ETH", 0.3), (m.amm_sells, "USDC", 100), (m.amm_buys, "USDC", 5), (m.amm_sells, "ETH", 99)):
                    r, e = core.call(fn, tkn, a, **kw)
                    out.append((e is None and bool(r["success"])))
                res.append((out, {i: (o.tkn, float(o.y), float(o.y_int)) for i, o in m.orders.items()}))
                tally.add("transitions", 7)
            if res[0] != res[1] or not any(res[0][0]) or res[0][0][-1]:
                bad.append("pair with every call and pair of the simulator differ: %r %r" % tuple(res))
            tally.seen("states", (mm, raw, repr(res[0])))
            for b in bad:
                tally.violation("%s:pair" % mm, "default pair %s (%s, raiseonerror=%s): %s" % (raw, form.__name__, roe, b), {"pair": raw, "matching": mm})
    for wrong in ("Exact", "", None, "best", 1):
        v, e = core.call(CarbonSimulatorUI, pair=raw, matching_method=wrong)
        tally.add("evaluations")
        if not isinstance(e, ValueError):
            tally.violation("%s:matching" % mm, "matching method %r accepted: %r %r" % (wrong, v, e), {"matching": repr(wrong)})


# ---------------------------------------------------------------------------------- S14

def s14(item, tally):
    scen, first, stride, depth = item
    states = reach(scen, core.Tally() if first else tally, depth, sim_props.trade2)
    splits = ((0.5, 0.5), (0.1, 0.9), (0.75, 0.25), (0.2, 0.3, 0.5))
    dust = ((0.99995, 0.00005),)          # what is left over is small, not nothing
    for n, (s, hist) in enumerate(states):
        obs = observe(s)
        cases = [(fn, t, f) for fn, t in ETHUSDC for f in (0.2, 0.6, 0.95, 0.99999)]
        for ci, (fn, t, f) in enumerate(cases):
            if (ci + n) % stride != first:
                continue
            for kw in (({}, {"use_positions": [i for i in obs if i < 2]}) if scen["mm"] != "fast" else ({"use_positions": [i for i in obs if i < 2]},)):
                core.arm()
                tr = Trade(("trade", fn, t, 1.0, kw), scen["pair"])
                cap = tr.capacity(obs)
                if cap <= 1e-3:
                    continue
                amt = nice(cap * f)
                whole = copy.deepcopy(s)
                r0, exc = apply(whole, ("trade", fn, t, amt, kw))
                f0 = fills(r0)
                tally.add("evaluations")
                if f0 is None:
                    tally.violation(scen["mm"] + ":whole", "trade of %s below capacity %s failed" % (amt, cap), rep(scen, hist, (fn, t, amt, kw)))
                    continue
                for sp in splits if f < 0.99 else dust:
                    c = copy.deepcopy(s)
                    out = inn = 0.0
                    done = 0.0
                    good = True
                    ops = []
                    for j, w in enumerate(sp):
                        a = amt - done if j == len(sp) - 1 else nice(amt * w)
                        done += a
                        op = ("trade", fn, t, a, kw)
                        ops.append(op)
                        r, exc = apply(c, op)
                        tally.add("transitions")
                        g = fills(r)
                        if g is None:
                            tally.violation(scen["mm"] + ":piece", "piece %s of a feasible trade failed: %s" % (op, (r or {}).get("error")), rep(scen, hist, *ops))
                            good = False
                            break
                        out += g[0]
                        inn += g[1]
                    if not good:
                        continue
                    tally.add("complete_histories")
                    tally.seen("states", (scen["mm"], scen["book"], canon(observe(c))))
                    if not (close(out, f0[0], 1e-8, 1e-9) and close(inn, f0[1], 1e-8, 1e-9)):
                        tally.violation(scen["mm"] + ":split", "%s %s %s at once: out %.15g in %.15g; in pieces %s: out %.15g in %.15g" % (
                            fn, t, amt, f0[0], f0[1], sp, out, inn), rep(scen, hist, *ops))
                    else:
                        # identical flat orders may share a fill in any proportion: compare the books only otherwise
                        cs = [curve(obs[i]) for i in tr.eligible(obs)]
                        flat = sum(1 for x in cs if x.A < 1e-9 * x.B) > 1
                        d = None if flat else near(observe(whole), observe(c), 1e-7, 1e-7)
                        if d:
                            tally.violation(scen["mm"] + ":split-book", "pieces %s of %s %s %s leave another book: %s" % (sp, fn, t, amt, d), rep(scen, hist, *ops))
                        tally.sample({"matching": scen["mm"], "book": scen["book"], "trade": [fn, t, amt], "pieces": list(sp), "out": out, "in": inn})


def s14_loops(item, tally):
    """no closed loop of trades pays the trader (all books here bid below where they ask)"""
    scen, first, stride, depth = item
    s0 = build(scen)
    hist0 = list(BOOKS[scen["book"]])
    level = [(s0, hist0, 0.0, 0.0)]
    for d in range(depth):
        nxt = []
        for s, h, eth, usd in level:
            ops = sim_props.trade2(observe(s), scen)
            if d == 0:
                ops = ops[first::stride]
            for op in ops:
                core.arm()
                c = copy.deepcopy(s)
                r, exc = apply(c, op)
                g = fills(r)
                tally.add("transitions")
                tally.seen("states", (scen["mm"], scen["book"], canon(observe(c))))
                if g is None:
                    continue
                e, u = eth, usd
                if g[4] == "ETH":
                    e, u = e + g[0], u - g[1]
                else:
                    e, u = e - g[1], u + g[0]
                nxt.append((c, h + [op], e, u))
                # close the position
                z = copy.deepcopy(c)
                if abs(e) < 1e-6:
                    u2 = u
                else:
                    cl = ("trade", "amm_buys" if e > 0 else "amm_sells", "ETH", abs(e), {})
                    r2, exc = apply(z, cl)
                    tally.add("transitions")
                    g2 = fills(r2)
                    if g2 is None:
                        continue
                    u2 = u + g2[0] if e > 0 else u - g2[1]
                tally.add("complete_histories")
                if u2 > 1e-6 + 1e-9 * 5000:
                    tally.violation(scen["mm"] + ":free-money", "the trader ends flat in ETH with %.12g USDC" % u2, rep(scen, h, op))
        level = nxt


# ---------------------------------------------------------------------------------- S16

PROGS = {
    "P": [A("ETH", 5, 2000, 3000, 1000, 1500, 1000), ("trade", "amm_sells", "ETH", 1.25, {"threshold_orders": 2}),
          ("trade", "amm_buys", "ETH", 0.2, {}), ("del", 0)],
    "Q": [A("ETH", 2, 2100, 2400, 700, 1600, 1200), A("ETH", 1, 2050, 2500, 300, 1500, 1400),
          ("trade", "amm_sells", "ETH", 2.2, {"threshold_orders": 10}), ("trade", "amm_buys", "USDC", 900, {"support_partial": True})],
    "R": [O("ETH", 3, 2000, 2600), ("trade", "amm_sells", "ETH", 9, {"support_partial": True}),
          ("trade", "amm_sells", "ETH", 1, {}), A("USDC", 100, 1400, 1300, 2, 2500, 2600)],
    "S": [A("USDC", 800, 1500, 1100, 3, 1900, 2100, pair="ETH/USDC"), ("trade", "amm_sells", "USDC", 120, {"pair": "USDC/ETH"}),
          ("trade", "amm_buys", "ETH", 0.3, {"limit_price": 1300}), ("trade", "amm_sells", "ETH", 2.9, {"use_positions": [1]})],
}


def interleavings(n, m, dep):
    """every way to merge n and m steps"""
    return itertools.combinations(range(n + m), n)


def digest(sim):
    lg = simx.log_of(sim)
    return canon(observe(sim)), sim.numtrades, repr(sorted(lg.items()))


def s16(item, tally):
    (m1, p1), (m2, p2), shared, raiseon, lens = item
    a, b = PROGS[p1][:lens], PROGS[p2][:lens]

    def mk(m, pr):
        return CarbonSimulatorUI(pair=pr, matching_method=m)

    def solo(m, prog):
        s = mk(m, "ETH/USDC")
        return [(ok(apply(s, op)[0]), digest(s)) for op in prog]

    base = (solo(m1, a), solo(m2, b))
    for combo in interleavings(len(a), len(b), None):
        core.arm()
        pr = CarbonPair("ETH/USDC") if shared else "ETH/USDC"
        sims = (mk(m1, pr), mk(m2, pr))
        pos = [0, 0]
        hist = []
        for t in range(len(a) + len(b)):
            w = 0 if t in combo else 1
            op = (a, b)[w][pos[w]]
            hist.append((w, op))
            res, exc = apply(sims[w], op)
            got = (ok(res), digest(sims[w]))
            tally.add("transitions")
            tally.seen("states", (m1, m2, p1, p2, digest(sims[0]), digest(sims[1])))
            if got != base[w][pos[w]]:
                tally.violation("interference", "simulator %d (%s) behaves differently next to another one, step %s" % (w, (m1, m2)[w], op),
                                {"programs": [p1, p2], "methods": [m1, m2], "order": repr(hist)})
                break
            # the other one must not have moved
            o = 1 - w
            if pos[o] > 0 and digest(sims[o]) != base[o][pos[o] - 1][1]:
                tally.violation("cross-effect", "operating one simulator changed the other, step %s" % (op,),
                                {"programs": [p1, p2], "methods": [m1, m2], "order": repr(hist)})
                break
            pos[w] += 1
        tally.add("complete_histories")
        tally.sample({"programs": [p1, p2], "methods": [m1, m2], "schedule": "".join("AB"[w] for w, _ in hist)})


# ---------------------------------------------------------------------------------- S18

def s18(item, tally):
    """raiseonerror only changes how an error is delivered; verbose and debug change nothing"""
    scen, first, stride, depth = item
    alpha = sim_props.quotes

    def mk(**k):
        s = CarbonSimulatorUI(pair=scen["pair"], matching_method=scen["mm"], **k)
        for op in BOOKS[scen["book"]]:
            apply(s, op)
        return s

    variants = [("raiseonerror", dict(raiseonerror=True)), ("verbose", dict(verbose=True)), ("debug", dict(debug=True)),
                ("all", dict(raiseonerror=True, verbose=True, debug=True))]
    level = [(mk(), [mk(**k) for _, k in variants], list(BOOKS[scen["book"]]))]
    for d in range(depth):
        nxt = []
        for s, vs, h in level:
            ops = alpha(observe(s), scen)
            if d == 0:
                ops = ops[first::stride]
            seen = set()
            for op in ops:
                core.arm()
                c = copy.deepcopy(s)
                cv = [copy.deepcopy(v) for v in vs]
                r, exc = apply(c, op)
                dg = digest(c)
                tally.add("transitions")
                fail = op[0] in ("trade", "add", "addo") and not ok(r)
                for (name, kw), v in zip(variants, cv):
                    r2, exc2 = apply(v, op)
                    tally.add("evaluations")
                    if kw.get("raiseonerror"):
                        same = (exc2 is not None) == fail
                    else:
                        same = exc2 is None and (ok(r2) == ok(r) or op[0] not in ("trade", "add", "addo"))
                    if not same:
                        tally.violation("%s:%s" % (scen["mm"], name), "%s: plain result success=%s, with %s: success=%s, raised %r" % (
                            op, ok(r), name, ok(r2), exc2), rep(scen, h, op))
                    elif digest(v) != dg:
                        tally.violation("%s:%s-state" % (scen["mm"], name), "%s leaves another state with %s: %s" % (
                            op, name, near(observe(c), observe(v))), rep(scen, h, op))
                k = canon(observe(c))
                tally.seen("states", (scen["mm"], scen["book"], k))
                if k not in seen:
                    seen.add(k)
                    nxt.append((c, cv, h + [op]))
                tally.add("complete_histories")
                tally.sample({"matching": scen["mm"], "book": scen["book"], "history": h + [op], "failed": fail})
        level = nxt


def sc(mm, book, pair="ETH/USDC"):
    return dict(mm=mm, book=book, pair=pair)


def dispatch(item, tally):
    kind, rest = item
    {"s08": s08, "s08a": s08_adds, "s08p": s08_pairs, "s14": s14, "s14l": s14_loops, "s16": s16, "s18": s18}[kind](rest, tally)


def items(pid, tier):
    th = tier == "thorough"
    it = []
    if pid == "S08":
        for mm in ("exact", "fast", "alpha"):
            for b in ("two", "partfull", "rev", "oneside") + (("flat", "small", "three") if th else ()):
                n = 6
                it += [("s08", (sc(mm, b), f, n, 1 if th else 0)) for f in range(n)]
            it += [("s08a", (mm, k)) for k in range(len(EQUIV_ADDS))]
            it += [("s08p", (mm, p)) for p in (None, "ETH/USDC", "USDC/ETH")]
    elif pid == "S14":
        for mm in ("exact", "alpha", "fast"):
            for b in ("one", "two", "flat", "partfull", "oneside") + (("three", "rev", "small") if th else ()):
                n = 4
                deep = 1 if th or b in ("partfull", "two") and mm != "alpha" else 0
                it += [("s14", (sc(mm, b), f, n, deep)) for f in range(n)]
            for b in ("one", "two", "partfull", "oneside"):
                it += [("s14l", (sc(mm, b), f, 4, 3 if th else 2)) for f in range(4)]
    elif pid == "S16":
        ms = ("exact", "fast", "alpha")
        L = 4 if th else 3
        for m1, m2 in itertools.combinations_with_replacement(ms, 2):
            for p1, p2 in itertools.product(PROGS, PROGS):
                if (p1 > p2 and m1 == m2) or (not th and (p1 == p2)):
                    continue
                for shared in ((True, False) if th else (True,)):
                    it.append(("s16", ((m1, p1), (m2, p2), shared, False, L)))
    elif pid == "S18":
        for mm in ("exact", "fast", "alpha"):
            for b in ("two", "oneside", "small", "multi", "three"):
                it += [("s18", (sc(mm, b), f, 4, 1)) for f in range(4)]
            if th:
                it += [("s18", (sc(mm, "one"), f, 8, 2)) for f in range(8)]
    return it


def check(pid, tier):
    t = core.run_tasks(dispatch, items(pid, tier))
    cov = dict(states=len(t.sets.get("states", ())), transitions=t.n.get("transitions", 0) + t.n.get("evaluations", 0),
               traces_validated_against_impl=t.n.get("complete_histories", t.n.get("evaluations", 0)), exhaustive=True,
               distinct_outcomes=len(t.sets.get("outcomes", ())) or None)
    return t, {k: v for k, v in cov.items() if v is not None}


def replay(pid, case, tally):
    # the relation is re-explored from the recorded book
    want = case.get("scen", {})
    for it in items(pid, "quick"):
        sc_ = it[1][0] if isinstance(it[1][0], dict) else None
        if sc_ is None or not want or (sc_["mm"], sc_["book"]) == (want.get("mm"), want.get("book")):
            dispatch(it, tally)
