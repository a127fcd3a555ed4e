"""CarbonPair: price conventions, conversions and limits (P01), construction (P02)."""
import itertools
from fractions import Fraction

from mc import core
from mc.core import close, call
from mc.oui import J
from carbon import CarbonPair

TK = ("ETH", "USDC", "WBTC", "DAI")
PRICES = (1e-9, 0.0005, 0.37, 1.0, 1500.0, 2.5e6)
AMTS = (0.0, 1e-6, 1.0, 7.25, 1e9)


def p01(item, t):
    b, q = item
    j = J(t, list(item))
    p = CarbonPair(f"{b}/{q}")
    r = p.reverse
    j.true("tokens", (p.tknb, p.tknq, p.basetoken, p.quotetoken) == (b, q, b, q), repr(p))
    j.true("reverse", (r.tknb, r.tknq) == (q, b) and r.reverse.slashpair == p.slashpair, repr(r))
    j.true("price convention", p.price_convention == f"{q} per {b}", p.price_convention)
    for x in TK:
        j.true("has_token", bool(p.has_token(x)) == (x in (b, q)), x)
        j.true("has_basetoken", bool(p.has_basetoken(x)) == (x == b), x)
        j.true("has_quotetoken", bool(p.has_quotetoken(x)) == (x == q), x)
        j.true("other", p.other(x) == ({b: q, q: b}.get(x)), "other(%s)=%r" % (x, p.other(x)))
    for pr in PRICES:
        for a, x, y in itertools.product(AMTS, TK, TK):
            t.add("points")
            v, e = call(p.convert, a, x, y, pr)
            if e is not None:
                j.true("convert", False, "raised %r" % e)
            elif x not in (b, q) or y not in (b, q):
                j.true("convert foreign", v is None, "%r" % v)
            else:
                w = a if x == y else a * pr if x == b else a / pr
                j.eq("convert", v, w, 1e-12, 0, "%g %s->%s at %g" % (a, x, y, pr))
                j.eq("convert round trip", p.convert(v, y, x, pr), a, 1e-12)
                j.eq("convert reversed pair", r.convert(a, x, y, 1 / pr), w, 1e-12)
        for x in TK:
            v, e = call(p.convert_price, pr, x)
            if x not in (b, q):
                j.true("convert_price foreign", e is None and v is None, "%r %r" % (v, e))
            else:
                j.eq("convert_price", v, pr if x == q else 1 / pr, 1e-12)
            v, e = call(p.convert_price, None, x)
            j.true("convert_price None", e is None and v is None, "%r %r" % (v, e))
            for y in TK:
                v, e = call(p.price, pr, x, y)
                if x == y or x not in (b, q) or y not in (b, q):
                    j.true("price foreign", e is None and v is None, "%r %r" % (v, e))
                else:
                    j.eq("price", v, pr if y == q else 1 / pr, 1e-12)
        # limits
        for f, tkn, bs, rev in itertools.product((0.5, 0.999999999, 1.0, 1.000000001, 2.0), TK, ("buy", "sell"), (False, True)):
            t.add("limits")
            cur = pr * f
            with core.quiet():
                v, e = call(p.limit_is_met, tkn, pr, bs, cur, reverse=rev)
                v2, e2 = call(p.limit_is_met, tkn, pr, bs, cur, reverse=rev, asphrase=True)
            if tkn not in (b, q):
                j.true("limit foreign", v is None and e is None, "%r %r" % (v, e))
                continue
            buys = (bs == "buy") != rev             # does the order placer buy tkn?
            lo = (tkn == b) == buys                 # wants a low price in this convention?
            want = cur == pr or (cur < pr) == lo
            j.true("limit_is_met", e is None and bool(v) == want, "%s %s limit %.10g at %.10g reverse=%s: %r %r" % (bs, tkn, pr, cur, rev, v, e))
            if f == 1.0 or rev:
                continue
            v3 = r.limit_is_met(tkn, 1 / pr, bs, 1 / cur)
            j.true("limit reversed pair", bool(v3) == want, "%s %s limit %.10g at %.10g" % (bs, tkn, pr, cur))
            j.true("limit phrase", e2 is None and (("does not" in v2) != want), "%r" % v2)


def p02(item, t):
    b, q, db, dq = item
    j = J(t, list(item))
    sp = f"{b}/{q}"

    def same(key, p, dec=(None, None), orig=None):
        t.add("constructions")
        j.true(key, (p.tknb, p.tknq, p.slashpair, p.pair_slash, p.pair_iso) == (b.upper(), q.upper(), sp.upper(), sp.upper(), (b + q).upper()),
               "%s: %r" % (key, p))
        d = p.decimals
        j.true(key + " decimals", (d[p.tknb], d[p.tknq]) == dec and (d["_TKNB"], d["_TKNQ"]) == dec, "%s: %r, expected %r" % (key, d, dec))
        j.true(key + " has_decimals", p.has_decimals == (None not in dec), "%r" % p.has_decimals)
        j.true(key + " decdiff", p.decdiffqb == (None if None in dec else dec[1] - dec[0]), "%r" % p.decdiffqb)

    def mk(key, f, *a, dec=(None, None), **k):
        v, e = call(f, *a, **k)
        if j.true(key, e is None, "%s%r raised %r" % (key, a, e)):
            same(key, v, dec)
        return v

    C = CarbonPair
    p = mk("slashpair", C, sp)
    mk("tokens", C, tknb=b, tknq=q)
    mk("create1", C.create, sp)
    mk("create2", C.create, b, q)
    j.true("create of a pair", C.create(p) is p, "not the same object")
    j.true("create of nothing", C.create() is None, "")
    mk("from_slashpair", C.from_slashpair, f" {b} / {q} ")
    mk("from_slashpair decimals", C.from_slashpair, sp, (db, dq), dec=(db, dq))
    if b.upper() != q.upper() and not (b + q).upper().startswith(q.upper()):
        mk("iso quote", C.from_isopair_and_tkn, b + q, q.upper())
    if not (b + q).upper().startswith(b.upper()) or True:
        mk("iso base", C.from_isopair_and_tkn, b + q, b.upper())
    if len(b) == len(q) in (3, 4):
        mk("iso split", C.from_isopair_and_tkn, b + q)
    d = mk("set_decimals", lambda: C(sp).set_decimals(db, dq), dec=(db, dq))
    mk("copy keeps decimals", C, d, dec=(db, dq))
    mk("set_decimals dct", lambda: C(sp).sd(dct={b.upper(): db, q.upper(): dq}), dec=(db, dq))
    mk("set_decimals part dct", lambda: C(sp).sd(db, dct={b.upper(): 99, q.upper(): dq}), dec=(db, dq))
    r = d.reverse
    j.true("reverse decimals", r.decimals[b.upper()] == db and r.decimals[q.upper()] == dq, "%r" % r.decimals)
    same("reverse reverse", r.reverse, (db, dq))
    # display symbols
    for disp in (False, True):
        x = C(sp, display_orig=disp)
        j.true("display", (x.tknb_o, x.tknq_o, x.slashpair_o) == (b, q, sp), "%r" % x.slashpair_o)
        j.true("display", (x.tknb_d, x.tknq_d, x.slashpair_d) == ((b, q, sp) if disp else (b.upper(), q.upper(), sp.upper())), "%r" % x.slashpair_d)
    # rejections
    for a, k in (((), {}), ((b + q,), {}), ((b, q), {}), ((sp,), dict(tknq=q)), ((), dict(tknb=b)), (("a/b/c",), {})):
        v, e = call(C, *a, **k)
        j.true("rejects", isinstance(e, ValueError), "CarbonPair(%r, %r) accepted: %r %r" % (a, k, v, e))
    for a in ((sp + "/X",), ("ETHUSDC",)):
        v, e = call(C.from_slashpair, *a)
        j.true("rejects", isinstance(e, ValueError), "from_slashpair%r: %r %r" % (a, v, e))
    v, e = call(C.from_isopair_and_tkn, b + q, "XYZW")
    j.true("rejects", isinstance(e, ValueError), "foreign token: %r %r" % (v, e))
    v, e = call(C.create, p, q)
    j.true("rejects", isinstance(e, ValueError), "create(pair, tkn): %r %r" % (v, e))
    # equality of value
    j.true("equality", C(sp) == C(tknb=b.upper(), tknq=q.upper()), "equal pairs differ")
    j.true("equality", C(sp) != C(f"{q}/{b}") or b.upper() == q.upper(), "reversed pair is equal")


def items(pid):
    if pid == "P01":
        return [(b, q) for b in TK for q in TK if b != q]
    toks = ("ETH", "USDC", "eth", "wstETH", "WETH", "WBTC", "bnBNT", "A", "USD")
    return [(b, q, db, dq) for b in toks for q in toks if b.upper() != q.upper() for db, dq in ((18, 6), (0, 8), (8, 18))]


FN = {"P01": p01, "P02": p02}


def check(pid, tier):
    it = items(pid)
    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(list(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 8))
    return tally, dict(states=len(it), transitions=tally.n["comparisons"], exhaustive=True,
                       bounds="all ordered pairs of %d tokens x price/amount/decimals grids x every argument combination" % len({x[0] for x in it}))


def replay(pid, case, t):
    FN[pid](tuple(case["case"]), t)
