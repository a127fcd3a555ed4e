"""Scenarios (initial books x alphabets x depth) for the simulator properties."""
from mc import core, simx
from mc.simx import A, O, BOOKS, alphabet, frac_trades, explore, nice

ETHUSDC = [("amm_sells", "ETH"), ("amm_buys", "ETH"), ("amm_sells", "USDC"), ("amm_buys", "USDC")]


def specs(pairs, fracs, kws=({},)):
    return [(fn, tkn, f, kw) for fn, tkn in pairs for f in fracs for kw in kws]


@alphabet
def trade4(obs, scen):
    """all four directions, small / medium / nearly everything"""
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.07, 0.45, 0.97)))


@alphabet
def trade2(obs, scen):
    return frac_trades(obs, scen["pair"], specs([("amm_sells", "ETH"), ("amm_buys", "ETH"), ("amm_sells", "USDC"),
                                                 ("amm_buys", "USDC")], (0.3, 0.9)))


@alphabet
def trade_all(obs, scen):
    """every phrasing, tiny to beyond capacity"""
    fns = [(f, t) for f in ("amm_sells", "trader_buys", "amm_buys", "trader_sells") for t in ("ETH", "USDC")]
    return frac_trades(obs, scen["pair"], specs(fns, (0.001, 0.2, 0.6, 0.9, 0.999))) + \
        frac_trades(obs, scen["pair"], specs(ETHUSDC, (1.02, 3.0), ({}, {"support_partial": True}))) + \
        frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.35, 0.95), ({"support_partial": True}, {"_neg": 1})))


@alphabet
def del_trade(obs, scen):
    """trades over several orders of a book whose ids have gaps"""
    ids = sorted(obs)
    return [("del", i) for i in (ids[:3:2] + ids[-1:])] + frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.9,)))


@alphabet
def trade_more(obs, scen):
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.003, 0.1, 0.3, 0.5, 0.7, 0.85, 0.95, 0.995)))


LIM = [{"_limit": m} for m in (0.5, 0.97, 1.03, 2.0)] + [{"_limamt": m} for m in (0.5, 0.97, 1.03, 2.0)]


@alphabet
def limits(obs, scen):
    ops = frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.25, 0.8), LIM))
    ops += frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.4,), ({"_limit": 0.95, "execute": False},
                                                                 {"_limit": 1.05, "execute": False},
                                                                 {"_limit": 1.05, "_limamt": 0.95},
                                                                 {"_limit": 0.95, "_neg": 1}, {"_limit": 1.05, "_neg": 1},
                                                                 {"_limamt": 0.95, "_neg": 1}, {"_limamt": 1.05, "_neg": 1})))
    sp = {"support_partial": True}
    ops += frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.3, 1.5), [dict(sp, **l) for l in (
        {"_limit": 0.95}, {"_limit": 1.05}, {"_limamt": 0.95}, {"_limamt": 1.05})]))
    ids = sorted(obs)
    ops += frac_trades(obs, scen["pair"], specs(ETHUSDC[:2], (0.2,), [dict({"use_positions": ids}, **l) for l in (
        {"_limit": 0.95}, {"_limit": 1.05}, {"_limamt": 0.95}, {"_limamt": 1.05})]))
    if scen["pair"] == "ETH/USDC":
        ops += frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.3,), ({"_limit": 0.95, "pair": "USDC/ETH"},
                                                                     {"_limit": 1.05, "pair": "USDC/ETH"},
                                                                     {"_limamt": 0.95, "pair": "USDC/ETH"},
                                                                     {"_limamt": 1.05, "pair": "USDC/ETH"})))
    return ops


@alphabet
def limits_small(obs, scen):
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.3,), ({"_limit": 0.96}, {"_limit": 1.04},
                                                                 {"_limamt": 0.96}, {"_limamt": 1.04}, {})))


@alphabet
def quotes(obs, scen):
    """things that must not change anything, interleaved with executing trades"""
    p = scen["pair"]
    ops = frac_trades(obs, p, specs(ETHUSDC, (0.2, 0.9), ({"execute": False},)))
    ops += frac_trades(obs, p, specs(ETHUSDC, (1.5,), ({}, {"execute": False}, {"support_partial": True, "execute": False})))
    ops += frac_trades(obs, p, specs(ETHUSDC, (0.3,), ({},)))
    ops += frac_trades(obs, p, specs(ETHUSDC, (0.3,), ({"_neg": 1, "execute": False}, {"inpair": False},
                                                      {"use_positions": []}, {"use_positions": [77]},
                                                      {"_limit": 1, "_limamt": 1},
                                                      {"_limit": 0.9, "support_partial": True}, {"_limit": 1.1, "support_partial": True},
                                                      {"_limamt": 0.9, "support_partial": True}, {"_limamt": 1.1, "support_partial": True})))
    ops += [("trade", fn, t, a, kw) for fn in ("amm_sells", "amm_buys") for t, a, kw in
            (("ETH", 0, {}), ("LINK", 1, {}), ("ETH", 1, {"pair": "LINK/USDC"}), ("LINK", 1, {"pair": "LINK/USDC"}),
             ("USDC", 0, {"execute": False}))]
    ops += BADADDS + [("del", 99), ("state",), ("liq",)]
    return ops


BADADDS = [
    A("LINK", 1, 2000, 3000, 10, 1500, 1000),                                    # token not in pair
    A("ETH", 1, 2000, None, 10, 1500, 1000),                                     # half a range, sell side
    A("ETH", 1, 2000, 3000, 10, 1500, None),                                     # half a range, buy side
    A("ETH", 1, 2000, 3000, 10, 1500, 1000, y_int_buy=5),                        # capacity below balance
    A("ETH", 1, 2000, 3000, 10, 1500, 1000, y_int_sell=0.5),
    A("ETH", 1, 2000, 3000, 10, 1500, 1000, y_int_buy=20, pbuy_marginal=1400),   # over-determined
    A("ETH", 1, 2000, 3000, 10, 1500, 1000, y_int_sell=2, psell_marginal=2500),
    O("ETH", 1, 2000, None), O("ETH", 2, 2000, 3000, y_int=1), O("LINK", 2, 2000, 3000),
    A("LINK", 1, 2000, 3000, 10, 1500, 1000, pair="ETH/USDC"),
]

GOODADDS = [
    A("ETH", 1, 2100, 2600, 300, 1550, 1200),
    A("USDC", 200, 1450, 1350, 0.5, 2250, 2450),
    O("ETH", 0.7, 2300, 2400),
    O("USDC", 250, 1300, 1200, y_int=400),
    A("ETH", 2, 2600, 2100, 300, 1200, 1550),              # start and end swapped
    A("ETH", None, None, None, 300, 1500, 1200),
]

HALFADDS = [GOODADDS[5], A("ETH", 2, 2100, 2600)]          # only one side of the strategy exists


@alphabet
def lifecycle(obs, scen):
    ops = GOODADDS[:4] + HALFADDS + [BADADDS[0], BADADDS[2], BADADDS[3], BADADDS[5], BADADDS[7]]
    ops += [("del", i) for i in sorted(obs)] + [("del", 99), ("del", -1)]
    ops += [("del", i, "s") for i in sorted(obs)[:2]]
    ops += frac_trades(obs, scen["pair"], specs(ETHUSDC[:2], (0.4,)))
    return ops


@alphabet
def lifecycle_small(obs, scen):
    ids = sorted(obs)
    return GOODADDS[:1] + GOODADDS[2:3] + HALFADDS[:1] + [BADADDS[2], BADADDS[7]] + [("del", i) for i in ids[:3] + ids[-1:]] + \
        frac_trades(obs, scen["pair"], specs([("amm_sells", "ETH")], (0.4,)))


@alphabet
def adds(obs, scen):
    """every parametrisation of a strategy over a small grid"""
    ops = list(BADADDS) + list(GOODADDS)
    for (s, e) in ((2000, 3000), (3000, 2000), (2500, 2500)):
        for amt in (0, 0.25, 4):
            for kw in ({}, {"y_int_sell": 4}, {"y_int_sell": 7.5}, {"psell_marginal": 2200}, {"psell_marginal": 2000.0}, {"psell_marginal": 2000.9},
                       {"psell_marginal": 2990}):
                if s == e and "psell_marginal" in kw:
                    continue
                if amt == 0 and "psell_marginal" in kw:
                    continue
                ops.append(A("ETH", amt, s, e, 500, 1500, 1000, **kw))
                if kw:
                    ops.append(O("ETH", amt, s, e, **{k.replace("_sell", "").replace("psell", "p"): v for k, v in kw.items()}))
    for (s, e) in ((1500, 1000), (1000, 1500), (1200, 1200)):
        for amt in (0, 0.5, 900):
            for kw in ({}, {"y_int_buy": 900}, {"y_int_buy": 1234.5}, {"pbuy_marginal": 1400}, {"pbuy_marginal": 1499.5}, {"pbuy_marginal": 1500.0}, {"pbuy_marginal": 1003}):
                if (s == e or amt == 0) and "pbuy_marginal" in kw:
                    continue
                ops.append(A("ETH", 1, 2000, 3000, amt, s, e, **kw))
                # the same strategy described from the other token
                ops.append(A("USDC", amt, s, e, 1, 2000, 3000, **{k.replace("buy", "sell"): v for k, v in kw.items()}))
    ops.append(A("WBTC", 1, 20000, 30000, 500, 15000, 12000, pair="WBTC/USDC"))
    ops.append(A("USDC", 500, 1 / 1500, 1 / 1000, 2, 1 / 2000, 1 / 3000, pair="USDC/ETH"))
    ops.append(A("ETH", 2, 1 / 2000, 1 / 3000, 500, 1 / 1500, 1 / 1000, pair="USDC/ETH", psell_marginal=1 / 2500, y_int_buy=600))
    for lv in (1e-9, 3e-4, 7e6):           # price levels, very narrow and very wide ranges, both sides with capacity or marginal price
        for w in (1.0001, 1.5, 5e4):
            for kw in ({}, {"y_int_sell": 5.5, "y_int_buy": 1e4}, {"psell_marginal": lv * (1 + w), "pbuy_marginal": 2 * lv / (1 + w)},
                       {"y_int_sell": 3, "pbuy_marginal": 2 * lv / (1 + w)}, {"carbon_id": "0-17"}):
                ops.append(A("ETH", 3, lv * 2, lv * 2 * w, 0.02, lv, lv / w, **kw))
                ops.append(A("USDC", 0.02, lv, lv / w, 3, lv * 2, lv * 2 * w,
                             **{k.replace("buy", "SELL").replace("sell", "buy").replace("SELL", "sell"): v for k, v in kw.items()}))
    return ops


@alphabet
def select(obs, scen):
    """pairs, positions, negative amounts"""
    p = scen["pair"]
    kws = [{}, {"use_positions": "odd"}, {"use_positions": "first"}, {"use_positions": "odd", "_neg": 1},
           {"_neg": 1}, {"use_positions": "first", "_neg": 1}, {"pair": "USDC/ETH"},
           {"pair": "USDC/ETH", "use_positions": "first"}, {"pair": "ETH/USDC"}]
    ops = frac_trades(obs, p, specs(ETHUSDC, (0.3, 0.9), kws))
    ops += frac_trades(obs, p, specs([(f, t) for f in ("amm_sells", "amm_buys") for t in ("WBTC", "USDC")], (0.3, 0.9),
                                     [{"pair": "WBTC/USDC"}, {"pair": "WBTC/USDC", "_neg": 1}, {"pair": "USDC/WBTC"}]))
    ops += frac_trades(obs, p, specs([(f, t) for f in ("amm_sells", "amm_buys") for t in ("WBTC", "ETH")], (0.5,),
                                     [{"pair": "WBTC/ETH"}, {"pair": "ETH/WBTC"}]))
    ops += frac_trades(obs, p, specs(ETHUSDC, (0.3,), [{"use_positions": [3, 0]}, {"use_positions": [1]}, {"use_positions": [2, 99]},
                                                      {"use_positions": []}]))
    return ops


@alphabet
def select_small(obs, scen):
    p = scen["pair"]
    ops = frac_trades(obs, p, specs(ETHUSDC, (0.5,), [{}, {"use_positions": "odd"}, {"use_positions": "first", "_neg": 1}]))
    ops += frac_trades(obs, p, specs([("amm_sells", "WBTC"), ("amm_buys", "WBTC")], (0.5,), [{"pair": "WBTC/USDC"}]))
    ops += [("del", i) for i in sorted(obs)[:1]]
    return ops


@alphabet
def thresholds(obs, scen):
    kws = [{"threshold_orders": k, "_capth": 1} for k in (1, 2, 3, 4, 10)] + \
          [{"threshold_orders": k, "_capth": 1, "support_partial": True} for k in (1, 3)]
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.05, 0.3, 0.6, 0.9, 0.99, 1.05), kws))


@alphabet
def thresholds_small(obs, scen):
    kws = [{"threshold_orders": k, "_capth": 1} for k in (1, 2, 10)]
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.3, 0.9), kws))


@alphabet
def liquidity_edges(obs, scen):
    kws = ({}, {"support_partial": True}, {"execute": False})
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.5, 0.99, 0.9998, 1.0002, 1.01, 1.5, 20), kws)) + \
        frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.5, 1.3), ({"use_positions": "first"}, {"use_positions": "first", "support_partial": True},
                                                                  {"support_partial": True, "_neg": 1})))


@alphabet
def drain(obs, scen):
    return frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.6, 2), ({"support_partial": True},))) + \
        frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.97,)))


@alphabet
def views(obs, scen):
    ids = sorted(obs)
    return [("state",), ("liq",), ("liq", 1), ("state", {"inclhistory": False}), ("state", {"pair": "ETHUSDC"}),
            ("state", {"pair": ["USDCETH", "WBTCUSDC", "ETHUSDC"]})] + GOODADDS[:1] + GOODADDS[2:4] + [A("WBTC", 1, 20000, 30000, 500, 15000, 12000, pair="WBTC/USDC"),
            A("USDC", 500, 1 / 1500, 1 / 1000, 2, 1 / 2000, 1 / 3000, pair="USDC/ETH")] + \
        [("del", i) for i in ids[:2]] + \
        frac_trades(obs, scen["pair"], specs(ETHUSDC, (0.5,)) + specs(ETHUSDC[:2], (0.98,), ({"execute": False},)))


ALL = ("exact", "fast", "alpha")


def sc(mm, book, alpha, depth, pair="ETH/USDC", stride=4):
    return dict(mm=mm, book=book, alphabet=alpha, depth=depth, pair=pair, stride=stride)


def scenarios(pid, tier):
    th = tier == "thorough"
    S = []

    def add(mms, books, alpha, depth, stride=4, pair="ETH/USDC"):
        for b in books:
            for m in mms:
                S.append(sc(m, b, alpha, depth, pair, stride))

    if pid == "S01":
        add(ALL, ("one", "two", "flat", "partfull", "small", "oneside"), "trade4", 2)
        add(ALL, ("rev", "multi", "wide"), "trade2", 2)
        add(ALL, ("tie", "scale"), "trade2", 1)
        add(("fast",), ("one", "two"), "trade2", 3 if not th else 5, 8)
        add(("exact",), ("one",), "trade2", 3 if not th else 4, 8)
        if th:
            add(ALL, tuple(BOOKS)[:-1], "trade_more", 2, 8)
            add(ALL, ("two", "partfull", "oneside"), "trade2", 4, 8)
    elif pid == "S02":
        add(ALL, ("two", "oneside", "small", "empty"), "quotes", 1 if not th else 2, 8)
        add(("fast",), ("one",), "quotes", 2, 8)
        if th:
            add(ALL, ("flat", "partfull", "multi", "rev"), "quotes", 2, 8)
    elif pid == "S03":
        add(("fast",), ("empty", "one", "two"), "lifecycle", 2 if not th else 3, 8)
        add(("exact",), ("empty",), "lifecycle_small", 3 if not th else 5, 8)
        add(("exact", "alpha"), ("multi",), "lifecycle_small", 2 if not th else 3, 8)
        add(("alpha",), ("one",), "lifecycle", 1 if not th else 3)
    elif pid == "S04":
        add(ALL, ("one", "flat", "partfull", "oneside", "wide"), "drain", 2 if not th else 3, 8)
        add(ALL, ("two", "small", "rev"), "trade4", 1 if not th else 2, 4)
        add(("fast",), ("one", "partfull"), "drain", 3 if not th else 4, 8)
    elif pid == "S05":
        add(ALL, ("two", "flat", "oneside", "rev"), "trade_all", 1, 8)
        add(ALL, ("multi",), "select", 1, 8)
        add(ALL, ("five", "three"), "trade4", 1 if not th else 2, 8)
        add(ALL, ("three", "oneside"), "del_trade", 2 if not th else 3, 8)
        add(ALL, ("partfull", "small"), "limits_small", 2 if not th else 3, 8)
        add(ALL, ("one",), "trade2", 2 if not th else 4, 4)
    elif pid == "S06":
        add(ALL, ("two", "oneside", "rev"), "limits", 1, 8)
        add(ALL, ("flat", "partfull"), "limits_small", 2 if not th else 3, 8)
        if th:
            add(ALL, ("one", "small", "three", "five"), "limits", 2, 8)
    elif pid == "S07":
        add(ALL, ("multi", "two", "three"), "select", 1, 8)
        add(ALL, ("multi", "oneside"), "select_small", 2 if not th else 3, 8)
    elif pid == "S09":
        add(("exact",), ("two", "flat", "partfull", "small", "three", "nearflat"), "trade_more", 1 if not th else 2, 8)
        add(("exact",), ("five", "wide", "tie", "scale"), "trade_more", 1, 16)
        add(("exact",), ("two", "partfull", "three"), "trade2", 2 if not th else 3, 8)
    elif pid == "S10":
        add(("alpha",), ("two", "three", "flat", "partfull", "small"), "thresholds", 1, 8)
        add(("alpha",), ("five", "tie", "wide", "scale"), "thresholds", 1, 16)
        add(("alpha",), ("three", "two"), "thresholds_small", 2 if not th else 3, 8)
        if th:
            add(("alpha",), ("five", "nearflat"), "thresholds", 2, 16)
    elif pid == "S11":
        add(("fast",), ("two", "flat", "partfull", "small", "three", "five", "oneside", "rev", "nearflat", "wide", "tie", "scale"), "trade_more", 2, 8)
        add(("fast",), ("three", "two"), "trade2", 3 if not th else 4, 8)
    elif pid == "S12":
        add(ALL, ("one", "two", "flat", "partfull", "small", "oneside", "rev", "multi", "nearflat", "wide", "tie", "scale"), "trade4", 1, 4)
        add(ALL, ("partfull", "small", "one"), "trade2", 2 if not th else 3, 8)
        if th:
            add(ALL, ("two", "flat", "three", "five"), "trade_more", 2, 8)
    elif pid == "S13":
        add(ALL, ("one", "two", "flat", "partfull", "small", "oneside", "tie", "wide", "scale"), "liquidity_edges", 1, 8)
        add(ALL, ("one", "two"), "drain", 2 if not th else 3, 8)
        if th:
            add(ALL, ("three", "five", "rev", "multi"), "liquidity_edges", 2, 8)
    elif pid == "S15":
        add(("fast",), ("empty", "two", "partfull"), "views", 2 if not th else 3, 8)
        add(("exact", "alpha"), ("oneside", "rev", "multi"), "views", 1 if not th else 2, 8)
    elif pid == "S17":
        add(("exact", "fast"), ("empty",), "adds", 1, 16)
        add(("alpha",), ("one",), "adds", 1, 16)
        if th:
            add(("fast",), ("empty",), "adds", 2, 64)
    return S


def check(pid, tier):
    return simx.run(pid, scenarios(pid, tier))


def replay(pid, case, tally):
    simx.replay_case(pid, case, tally)
