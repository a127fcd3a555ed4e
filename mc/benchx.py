"""Contract arithmetic and matching (benchmark/core): trade functions (B01), encoding (B02), matching (B03)."""
import hashlib
import importlib
import itertools
import json
import os
import sys
from decimal import Decimal, localcontext
from fractions import Fraction as F

from mc import core
from mc.core import call
from mc.oui import J

_B = os.path.join(core.REPO, "benchmark")
if _B not in sys.path:
    sys.path.insert(0, _B)
impl = importlib.import_module("core.trade.impl")
spec = importlib.import_module("core.trade.spec")
match = importlib.import_module("core.match.impl")

ONE = 2 ** 48
M128 = 2 ** 128 - 1
M256 = 2 ** 256 - 1


def unfloat(v):
    """contract float: 48 bit mantissa, exponent above"""
    return (v % ONE) * 2 ** (v // ONE)


# ---------------------------------------------------------------- B01

def exact_source(x, y, z, A, B):
    if A == 0:
        return F(x * B * B, ONE * ONE)
    t2 = y * A + z * B
    d = (z * ONE) ** 2 + A * x * t2
    return F(t2 * t2 * x, d) if d else None


def exact_target(x, y, z, A, B):
    """None: not reachable"""
    if A == 0:
        return F(x * ONE * ONE, B * B) if B else None
    t2 = y * A + z * B
    d = t2 * (t2 - A * x)
    return F(x * (z * ONE) ** 2, d) if d > 0 else None


def overflow_source(x, y, z, A, B):
    """an intermediate product of the formula does not fit into 256 bits, or the result not into 128"""
    if A == 0:
        return B * B > M256 or x * B * B // ONE ** 2 > M128
    t2 = y * A + z * B
    return max(z * ONE, y * A, z * B, t2, t2 * x) > M256 or z == 0 or exact_source(x, y, z, A, B) > M128 or t2 * x == 0 and z == 0


def overflow_target(x, y, z, A, B):
    if A == 0:
        return B == 0 or B * B > M256 or F(x * ONE ** 2, B * B) > M128
    t2 = y * A + z * B
    e = exact_target(x, y, z, A, B)
    return max(z * ONE, y * A, z * B, t2, x * A) > M256 or e is None or e * (1 + F(1, 2 ** 100)) + 2 > M128 or z == 0


def judge_source(j, x, o):
    """o: encoded order"""
    y, z, A, B = o["y"], o["z"], unfloat(o["A"]), unfloat(o["B"])
    v, e = call(impl.tradeBySourceAmount, x, o)
    j.t.add("trades")
    if not j.true("by source", e is None and isinstance(v, int) and 0 <= v <= M128, "%r raised %r for %r" % (v, e, (x, y, z, A, B))):
        return None
    ex = exact_source(x, y, z, A, B)
    if ex is None or (v == 0 and overflow_source(x, y, z, A, B)):
        j.true("by source impossible", v == 0, "%r" % v)
        return v
    j.true("never pays more than the curve", v <= ex, "x=%d y=%d z=%d A=%d B=%d: %d > %s" % (x, y, z, A, B, v, float(ex)))
    if A == 0:
        low = ex - 1
    else:
        t1, t2 = z * ONE, y * A + z * B
        t3 = t2 * x
        f = max(-(-t1 * t1 // M256), -(-t3 * A // M256))
        low = ex - 4
        if f <= 1:
            low = ex - 1
        if t3 and t1 * t1 + t3 * A >= M256 * f - 2 * f:
            low = ex * (1 - 1 / (A + F(t1 * t1, t3))) - 4
    j.true("pays what the curve gives", v > low or v == ex, "x=%d y=%d z=%d A=%d B=%d: %d, exact %s" % (x, y, z, A, B, v, float(ex)))
    return v


def judge_target(j, x, o):
    y, z, A, B = o["y"], o["z"], unfloat(o["A"]), unfloat(o["B"])
    v, e = call(impl.tradeByTargetAmount, x, o)
    j.t.add("trades")
    if not j.true("by target", e is None and isinstance(v, int) and 0 <= v <= M128, "%r raised %r for %r" % (v, e, (x, y, z, A, B))):
        return None
    ex = exact_target(x, y, z, A, B)
    if ex is None or (v == M128 and overflow_target(x, y, z, A, B)):
        j.true("by target impossible", v == M128 or (z == 0 and x == 0), "%r" % v)
        return v
    j.true("never takes less than the curve", v >= ex, "x=%d y=%d z=%d A=%d B=%d: %d < %s" % (x, y, z, A, B, v, float(ex)))
    if A == 0:
        hi = ex + 1
    else:
        t1, t2 = z * ONE, y * A + z * B
        t3 = t2 - x * A
        f = max(-(-t1 * t1 // M256), -(-t2 * t3 // M256))
        if f <= 1:
            hi = ex + 1
        else:
            n, d = F(t1 * t1, f), F(t2 * t3, f)
            hi = x * (n + 1) / (d - 1) + 1 if d > 1 else None
    j.true("takes what the curve asks", hi is None or v < hi or v == ex, "x=%d y=%d z=%d A=%d B=%d: %d, exact %s" % (x, y, z, A, B, v, float(ex)))
    return v


SM_A = (0, 1, 3, ONE // 2, ONE - 1, ONE + ONE // 2, ONE * 2 + 1, 5 * ONE + 7)
SM_B = (0, 1, ONE // 3, ONE // 2, ONE - 1, ONE + ONE // 2, 3 * ONE + 12345)
RATES = ("1e-22", "0.00000000095", "0.0123", "1", "3.7", "2000", "1e12", "1e22")
WID = ("1", "1.000000001", "1.05", "2", "9", "1000000")
POS = ("1", "0.7", "0.1", "0.00001")
LIQ = (1, 10, 12345, 10 ** 12, 10 ** 18 + 7, 10 ** 26, 2 ** 112 - 1)
XS = (0, 1, 2, 77, 10 ** 6, 10 ** 18 + 1, 10 ** 27, 2 ** 100, M128)


def orders(rates, wid, pos, liq):
    for L in rates:
        for w in wid:
            for p in (pos if w != "1" else pos[:1]):
                for y in liq:
                    l = Decimal(L)
                    h = l * Decimal(w)
                    m = (l.sqrt() + (h.sqrt() - l.sqrt()) * Decimal(p)) ** 2 if p != "1" else h
                    yield dict(liquidity=str(y), lowestRate="{:.40f}".format(l), highestRate="{:.40f}".format(h), marginalRate="{:.40f}".format(m))


def b01_items(th):
    ys = range(0, 9 if th else 6)
    for y in ys:
        for z in sorted({y, y + 1, 2 * y + 1, 7 * y}):
            for A in SM_A:
                yield ("small", y, z, A)
    liq = LIQ if th else LIQ[::2]
    for o in orders(RATES, WID, POS, liq):
        yield ("order", o)
    for L in ("0.01", "1", "2000"):
        for w in ("1.0001", "1.5", "50"):
            for p in POS[:3]:
                for y in ("1000", "1000000", "1e18"):
                    yield ("spec", L, w, p, y)


def b01(item, t):
    if item[0] == "small":
        _, y, z, A = item
        j = J(t, list(item))
        for B in SM_B:
            o = dict(y=y, z=z, A=A, B=B)
            last = -1
            for x in list(range(0, 14)) + [2 * y + 3, 10 ** 6, 2 ** 90]:
                v = judge_source(j, x, o)
            last = -1
            for x in range(0, y + 3):
                v = judge_target(j, x, o)
        t.seen("states", ("small", y, z, A))
    elif item[0] == "order":
        j = J(t, ["order", item[1]])
        o, e = call(impl.encodeOrder, item[1])
        if e is not None:
            o = reference_encoding(item[1])
            if o is not None:
                j.true("encode", False, "raised %r" % (e,))
            return
        y = o["y"]
        cap = exact_target(y, y, o["z"], unfloat(o["A"]), unfloat(o["B"]))
        xs = set(XS)
        if cap is not None and cap < M128:
            c = int(cap)
            xs |= {c - 1, c, c + 1, c // 2, c // 3, c // 1000, 3 * c}
        last = 0
        for x in sorted(v for v in xs if 0 <= v <= M128):
            judge_source(j, x, o)
            j.true("execute", impl.execute("tradeBySourceAmount", str(x), item[1]) == impl.tradeBySourceAmount(x, o), "")
        for x in sorted({v for v in (0, 1, 2, y // 1000, y // 3, y // 2, y - 1, y) if 0 <= v <= y}):
            judge_target(j, x, o)
            j.true("execute", impl.execute("tradeByTargetAmount", str(x), item[1]) == impl.tradeByTargetAmount(x, o), "")
        for x in (y + 1, 2 * y + 5):
            judge_target(j, x, o)
        j.true("order untouched", o == reference_encoding(item[1]), "%r" % o)
        t.seen("states", ("order", repr(item[1])))
    else:
        spec_case(item, t)


def spec_case(item, t):
    """the specification itself: marginal rate, end of the curve, path independence, inverses"""
    _, L, w, p, y = item
    j = J(t, list(item))
    l = Decimal(L); h = l * Decimal(w); m = (l.sqrt() + (h.sqrt() - l.sqrt()) * Decimal(p)) ** 2
    y = Decimal(y)

    def order(y, m):
        return dict(liquidity=str(y), lowestRate=str(l), highestRate=str(h), marginalRate=str(m))

    def near(a, b, tag):
        j.true(tag, abs(a - b) <= Decimal("1e-40") * max(abs(a), abs(b), Decimal("1e-30")), "%s, expected %s" % (a, b))
    o = order(y, m)
    src = lambda x, o: spec.execute("tradeBySourceAmount", str(x), o)
    trg = lambda x, o: spec.execute("tradeByTargetAmount", str(x), o)
    total = y / (m.sqrt() * l.sqrt())
    near(src(total, o), y, "whole curve"); near(trg(y, o), total, "whole curve")
    for f in ("0", "1e-20", "0.001", "0.3", "0.5", "0.77", "1"):
        x = total * Decimal(f)
        dy = src(x, o)
        t.add("trades", 2)
        near(trg(dy, o), x, "inverse")
        rest = y - dy
        m2 = (l.sqrt() + (m.sqrt() - l.sqrt()) * rest / y) ** 2
        if x:
            near(dy / x, m.sqrt() * m2.sqrt(), "effective rate")
        for g in ("0.2", "0.9"):
            x2 = (total - x) * Decimal(g)
            if rest > 0:
                near(src(x + x2, o), dy + src(x2, order(rest, m2)), "path independence")
    d = spec.decodeOrder(spec.encodeOrder(o))
    j.true("spec encoding", all(abs(d[k] - Decimal(o[k])) <= Decimal("1e-60") * abs(Decimal(o[k])) for k in o), "%r" % d)
    # the contract follows the specification
    o = order(int(y), m)
    e, err = call(impl.encodeOrder, o)
    if err is None and y > 10 ** 12:
        for f in ("0.001", "0.3", "0.9"):
            x = int(total * Decimal(f))
            a, b = impl.tradeBySourceAmount(x, e), src(x, o)
            j.true("contract and specification", abs(a - b) <= Decimal("1e-9") * b + 3, "%s %s" % (a, b))
            x = int(y * Decimal(f))
            a, b = impl.tradeByTargetAmount(x, e), trg(x, o)
            j.true("contract and specification", abs(a - b) <= Decimal("1e-9") * b + 3, "%s %s" % (a, b))
    t.seen("states", tuple(item))


# ---------------------------------------------------------------- B02

def rate48(r):
    """square root of the rate times 2**48, rounded down, keeping 48 bits above the integer part's length"""
    d = int(Decimal(r).sqrt() * ONE)
    k = (d // ONE).bit_length()
    return d // 2 ** k * 2 ** k


def tofloat(v):
    k = (v // ONE).bit_length()
    return v // 2 ** k + k * ONE


def reference_encoding(o):
    y = int(o["liquidity"])
    L, H, M = (rate48(o[k]) for k in ("lowestRate", "highestRate", "marginalRate"))
    if H != M and M == L:
        return None
    z = y if H == M else y * (H - L) // (M - L)
    return dict(y=y, z=z, A=tofloat(H - L), B=tofloat(L))


def b02_items(th):
    liq = LIQ if th else LIQ[1::2]
    for o in orders(RATES + ("0.25", "1e6", "1e18"), WID + ("1.3", "100"), POS + ("0.9999999999",), liq):
        yield ("order", o)
    for k in range(0, 120):
        for d in (-1, 0, 1):
            if 2 ** k + d >= 0:
                yield ("int", 2 ** k + d)
    for m in (0, 1, 5, 2 ** 47, 2 ** 48 - 1, 0x123456789ABC):
        for e in (0, 1, 7, 47):
            yield ("float", m, e)


def b02(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "int":
        v = item[1]
        j.true("bit length", impl.bitLength(v) == v.bit_length(), "%r" % impl.bitLength(v))
        if v.bit_length() <= 96:
            e = impl.encodeFloat(v)
            d = impl.decodeFloat(e)
            j.true("float", d <= v and v - d < max(1, v >> 47) + (v < ONE) * 0 and e % ONE < ONE, "%d -> %d -> %d" % (v, e, d))
            if v < ONE:
                j.true("float exact", d == v, "%d -> %d" % (v, d))
            j.true("float stable", impl.decodeFloat(impl.encodeFloat(d)) == d, "%d" % d)
        return
    if item[0] == "float":
        _, m, e = item
        j.true("decode float", impl.decodeFloat(e * ONE + m) == m * 2 ** e, "")
        return
    o = item[1]
    e, ex = call(impl.encodeOrder, o)
    w = reference_encoding(o)
    if w is None:
        j.true("not representable", ex is not None, "%r" % e)
        return
    if not j.true("encode", ex is None, "raised %r" % (ex,)):
        return
    j.true("encode", e == w, "%r, expected %r" % (e, w))
    d = impl.decodeOrder(e)
    t.add("orders")
    near = lambda a, b, eps: abs(a - b) <= eps * b
    lo, hi, ma, y = (Decimal(o[k]) for k in ("lowestRate", "highestRate", "marginalRate", "liquidity"))
    j.true("liquidity", d["liquidity"] == y, "%r" % d)
    # a resolution of 2**-48 for square roots below one, 48 significant bits above
    eps = lambda r: Decimal(2) ** -46 * (1 + 1 / r.sqrt())
    j.true("lowest rate", d["lowestRate"] <= lo and near(d["lowestRate"], lo, eps(lo)), "%s, expected %s" % (d["lowestRate"], lo))
    j.true("highest rate", d["highestRate"] <= hi and near(d["highestRate"], hi, eps(hi)), "%s, expected %s" % (d["highestRate"], hi))
    span = (hi.sqrt() - lo.sqrt())
    pos = (ma.sqrt() - lo.sqrt()) / span if span else Decimal(1)
    if e["y"] > 10 ** 9 and pos > Decimal("0.001") and span * ONE > 10 ** 6:
        # z is an integer and the span has its own resolution
        tol = eps(ma) + (hi.sqrt() / ma.sqrt()) * (Decimal(2) / e["y"] + Decimal(8) * (1 + hi.sqrt()) / ONE / span)
        j.true("marginal rate", near(d["marginalRate"], ma, 4 * tol), "%s, expected %s" % (d["marginalRate"], ma))
    j.true("order of rates", d["lowestRate"] <= d["marginalRate"] <= d["highestRate"] * (1 + Decimal(10) ** -40), "%r" % d)
    j.true("inputs untouched", item[1] == o, "")


# ---------------------------------------------------------------- B03

MO = [("1000000", "1", "2", "1"), ("3950616", "2", "3", "1"), ("1000000", "1", "2", "0.5"), ("500000", "1.5", "1.5", "1"),
      ("2000000", "0.2", "5", "0.9"), ("777777", "2", "2", "1"), ("5000000", "1", "1.0001", "1"), ("12", "0.3", "4", "1"), ("0", "1", "2", "1")]
MO18 = [("1000000000000000000", "0.0005", "0.0006", "1"), ("30000000000000000000", "0.00055", "0.00055", "1"), ("2000000000000000000", "0.0001", "0.001", "0.6"),
        ("5000000000000000000", "0.00061", "0.00062", "0.3")]
MOE = [("123000000000", "0.00000000095", "0.00000000105", "0.5"), ("456000000000", "0.00000000095", "0.00000000105", "1"), ("7890000", "0.000000001", "0.000000001", "1"),
       ("50000000000", "0.0000000009", "0.00000000098", "1")]
MOX = [("340000000000000000000", "900000000", "1100000000", "1"), ("5000000000000000000", "950000000", "950000000", "1"), ("70000000000000000000", "1000000", "1050000000", "0.95")]
POOLS = dict(a=MO, b=MO18, c=MOE, d=MOX)
FRACS = ("1e-5", "0.03", "0.21", "0.5", "0.8", "0.999", "1", "1.0001", "2")


def mk(o):
    liq, L, H, p = o
    l, h, p = Decimal(L), Decimal(H), Decimal(p)
    m = (l.sqrt() + (h.sqrt() - l.sqrt()) * p) ** 2 if p != 1 else h
    return dict(liquidity=liq, lowestRate=L, highestRate=H, marginalRate=str(m))


def b03_items(th):
    yield ("none",)
    for nm, pool in POOLS.items():
        for n in (1, 2, 3) + ((4,) if th else ()):
            for i, c in enumerate(itertools.combinations_with_replacement(range(len(pool)), n)):
                yield (nm, c)
                if n == 3 and th:
                    yield (nm, c[::-1])


def optimum_source(amount, O):
    """largest total output for the amount, real numbers; O: (y, z, A, B) with A, B in units of 2**-48"""
    segs = [(y, z, F(A, ONE), F(B, ONE)) for y, z, A, B in O if y > 0]
    cur = [B + (A * F(y, z) if z else 0) for y, z, A, B in segs]
    points = sorted(set(cur) | {B for y, z, A, B in segs}, reverse=True)
    if amount == 0:
        return F(0)
    prev = None
    for s in points:
        flat = [(seg, c) for seg, c in zip(segs, cur) if seg[2] == 0 and seg[3] == s]
        xs = sum(trade_to(seg, c, s)[0] for seg, c in zip(segs, cur))
        ys = sum(trade_to(seg, c, s)[1] for seg, c in zip(segs, cur))
        if xs >= amount:
            # between prev and s: solve for the limit, with curves fully traded above their end
            act = [(seg, c) for seg, c in zip(segs, cur) if seg[2] and c > s and seg[3] < prev]
            full_x = sum(F(seg[0]) / (c * seg[3]) for seg, c in zip(segs, cur) if seg[3] >= prev)
            full_y = sum(F(seg[0]) for seg, c in zip(segs, cur) if seg[3] >= prev)
            # sum (y + zB/A)/(s c) - z/(A c) = amount - full_x
            n = sum((seg[0] + seg[1] * seg[3] / seg[2]) / c for seg, c in act)
            k = sum(seg[1] / seg[2] / c for seg, c in act)
            lim = n / (amount - full_x + k)
            return full_y + sum(seg[0] - seg[1] * (lim - seg[3]) / seg[2] for seg, c in act)
        fx = sum(F(seg[0]) / (seg[3] ** 2) for seg, c in flat)
        if xs + fx >= amount:
            return ys + (amount - xs) * s * s
        prev = s
    return sum(F(seg[0]) for seg in segs)


def trade_to(seg, c, s):
    """(in, out) of trading a curve from its square root rate c down to s"""
    y, z, A, B = seg
    if s >= c:
        return F(0), F(0)
    s = max(s, B)
    out = F(y) if s == B else y - z * (s - B) / A
    return out / (c * s), out


def optimum_target(amount, O):
    """least total input for the amount (bisection over the optimum by source)"""
    segs = [(y, z, F(A, ONE), F(B, ONE)) for y, z, A, B in O if y > 0]
    cur = [B + (A * F(y, z) if z else 0) for y, z, A, B in segs]
    if amount >= sum(y for y, *_ in segs):
        return sum(F(y) / (c * B) for (y, z, A, B), c in zip(segs, cur))
    points = sorted(set(cur) | {B for y, z, A, B in segs}, reverse=True)
    prev = None
    for s in points:
        ys = sum(trade_to(seg, c, s)[1] for seg, c in zip(segs, cur))
        xs = sum(trade_to(seg, c, s)[0] for seg, c in zip(segs, cur))
        if ys >= amount:
            act = [(seg, c) for seg, c in zip(segs, cur) if seg[2] and c > s and seg[3] < prev]
            full_x = sum(F(seg[0]) / (c * seg[3]) for seg, c in zip(segs, cur) if seg[3] >= prev)
            full_y = sum(F(seg[0]) for seg, c in zip(segs, cur) if seg[3] >= prev)
            n = sum(seg[0] + seg[1] * seg[3] / seg[2] for seg, c in act)
            k = sum(seg[1] / seg[2] for seg, c in act)
            lim = (n - (amount - full_y)) / k
            return full_x + sum((seg[0] - seg[1] * (lim - seg[3]) / seg[2]) / (c * lim) for seg, c in act)
        fy = sum(F(seg[0]) for seg in segs if seg[2] == 0 and seg[3] == s)
        if ys + fy >= amount:
            return xs + (amount - ys) / (s * s)
        prev = s
    return None


def max_source(amount, o):
    """the largest tradable amount not larger than `amount`, and what it pays"""
    i, out = amount, impl.tradeBySourceAmount(amount, o)
    if out > o["y"]:
        i = impl.tradeByTargetAmount(o["y"], o)
        while True:
            out = impl.tradeBySourceAmount(i, o)
            if out <= o["y"]:
                break
            i -= 1
    return i, out


def max_target(amount, o):
    i = min(amount, o["y"])
    return i, impl.tradeByTargetAmount(i, o)


def greedy(amount, enc, source):
    f = max_source if source else max_target
    q = [(f(amount, o), k) for k, o in enumerate(enc)]
    # best rate first; for equal rates the better output first
    rate = lambda x: (F(x[0][1], x[0][0]) if x[0][0] else None)

    def key(x):
        r = rate(x)
        if r is None:
            r = F(0) if source else F(0)
        return (-r, -x[0][1]) if source else (r, x[0][1])
    q = sorted(q, key=key)
    res, left = [], amount
    for (i, out), k in q:
        if i <= left:
            if i > 0 and out > 0:
                res.append((k, i, out)); left -= i
            if i == left and False:
                break
            if left == 0:
                break
        else:
            i, out = f(left, enc[k])
            if i > 0 and out > 0:
                res.append((k, i, out))
            break
    return res


# inputs of the known findings of B03, with what the matcher does with them today
KNOWN_B03 = os.path.join(core.VERIF, "known_b03.json")
_listed = None


def listed():
    global _listed
    if _listed is None:
        _listed = json.load(open(KNOWN_B03)) if os.path.exists(KNOWN_B03) else {}
    return _listed


class K(J):
    """a case of the matcher; a failure that is listed, with exactly the listed result, is a known finding"""

    def __init__(self, t, case):
        super().__init__(t, case)
        self.result = None

    def true(self, key, ok, what=""):
        if not ok:
            name = "%s %s" % (json.dumps(self.case), key)
            dig = hashlib.sha256(repr(self.result).encode()).hexdigest()[:16]
            if listed().get(name) == dig:
                self.t.add("listed findings")
                if self.t.n["listed findings"] <= 2:
                    self.t.violation("listed: " + key, what, {"case": self.case})
                return False
            self.t.sets.setdefault("unlisted", set()).add((name, dig))
        return super().true(key, ok, what)


def b03(item, t):
    if item[0] == "none":
        for m in ("matchBySourceAmount", "matchByTargetAmount"):
            j = K(t, [item[0], m])
            v, e = call(match.execute, m, "100", [])
            j.result = (v, type(e).__name__)
            j.true("no orders", e is None and v == {"Fast": [], "Best": []}, "%s: %r %r" % (m, v, e))
        t.seen("states", "none")
        return
    nm, c = item
    pool = POOLS[nm]
    t.seen("states", item)
    os_ = [mk(pool[i]) for i in c]
    enc = [reference_encoding(o) for o in os_]
    O = [(e["y"], e["z"], unfloat(e["A"]), unfloat(e["B"])) for e in enc]
    liq = sum(e["y"] for e in enc)
    capx = sum(impl.tradeByTargetAmount(e["y"], e) for e in enc if e["y"])
    for method, source, cap in (("matchBySourceAmount", True, capx), ("matchByTargetAmount", False, liq)):
        amounts = sorted({int(cap * Decimal(f)) for f in FRACS} | {0, 1, 3, 100})
        for amount in amounts:
            j = K(t, [nm, list(c), method, amount])
            t.add("matches")
            r, e = call(match.execute, method, str(amount), os_)
            j.result = (None if r is None else {k: [(a.id, a.input, a.output) for a in v] for k, v in r.items()}, type(e).__name__)
            if not j.true("match", e is None, "raised %r" % (e,)):
                continue
            if not j.true("match types", sorted(r) == ["Best", "Fast"], "%r" % r):
                continue
            tot = {}
            for ty in ("Fast", "Best"):
                acts = [(a.id, a.input, a.output) for a in r[ty]]
                ids = [a[0] for a in acts]
                j.true(ty + " orders", len(set(ids)) == len(ids) and all(0 <= i < len(os_) for i in ids), "%r" % acts)
                for k, i, out in acts:
                    j.true(ty + " positive", i > 0 and out > 0, "%r" % acts)
                    f = impl.tradeBySourceAmount if source else impl.tradeByTargetAmount
                    j.true(ty + " amounts", f(i, enc[k]) == out, "order %d: %d -> %d, expected %d" % (k, i, out, f(i, enc[k])))
                    j.true(ty + " liquidity", (out if source else i) <= enc[k]["y"], "order %d: %d -> %d, liquidity %d" % (k, i, out, enc[k]["y"]))
                tot[ty] = (sum(a[1] for a in acts), sum(a[2] for a in acts))
                j.true(ty + " total", tot[ty][0] <= amount, "%r, amount %d" % (acts, amount))
                one, e1 = call(match.execute, method, str(amount), os_, [ty])
                j.true("single type", e1 is None and [(a.id, a.input, a.output) for a in (one.get(ty) or ())] == acts and all(one.get(k) is None for k in one if k != ty), "%r %r" % (one, e1))
            g = greedy(amount, enc, source)
            fast = [(a.id, a.input, a.output) for a in r["Fast"]]
            j.true("Fast is greedy", [a[1:] for a in fast] == [a[1:] for a in g], "%r, expected %r" % (fast, g))
            n = len(enc)
            slack_y = (n + 1) * (1 + max(Decimal(o["highestRate"]) for o in os_))          # one unit of rounding per order and side
            slack_x = (n + 1) * (1 + 1 / min(Decimal(o["lowestRate"]) for o in os_))
            if source:
                opt = optimum_source(F(amount), O)
                j.true("Best is optimal", tot["Best"][1] >= opt * (1 - F(1, 10 ** 9)) - F(slack_y), "%r of %s; %r" % (tot["Best"], float(opt), [(a.id, a.input, a.output) for a in r["Best"]]))
                j.true("not better than the curves", tot["Best"][1] <= opt and tot["Fast"][1] <= opt, "%r of %s" % (tot, float(opt)))
            else:
                am = min(amount, liq)
                j.true("Best is complete", tot["Best"][0] >= am - n, "%r, amount %d of %d" % (tot["Best"], amount, liq))
                if tot["Best"][0]:
                    opt = optimum_target(F(tot["Best"][0]), O)
                    j.true("Best is optimal", tot["Best"][1] <= opt * (1 + F(1, 10 ** 9)) + F(slack_x), "%r of %s; %r" % (tot["Best"], float(opt), [(a.id, a.input, a.output) for a in r["Best"]]))
                    j.true("not better than the curves", tot["Best"][1] >= opt, "%r of %s" % (tot["Best"], float(opt)))
    # a filter removes exactly the actions it does not like
    r = match.execute("matchBySourceAmount", str(max(1, capx // 3)), os_, ["Best"], lambda q: q.output > 400000)
    a = match.execute("matchBySourceAmount", str(max(1, capx // 3)), os_, ["Best"])
    J(t, [nm, list(c)]).true("filter", [(x.id, x.input, x.output) for x in r["Best"]] == [(x.id, x.input, x.output) for x in a["Best"] if x.output > 400000], "")


BOUNDS = {
    "B01": "all orders with up to 5 (thorough: 8) units of liquidity, 8 widths and 7 lowest rates, traded by every small amount; orders with 8 rates over 44 decades x 6 widths x 4 positions x 4 (7) sizes up to 2^112, traded by amounts from 0 to 2^128 and around capacity; the specification over 81 orders",
    "B02": "orders with 11 rates x 8 widths x 5 positions x 3 (7) sizes; all powers of two up to 2^119 and neighbours; mantissa/exponent grid",
    "B03": "all order books of up to 3 (thorough: 4, and 3 in both orders) orders from four families of 9, 4, 4 and 3 kinds of order, 13 amounts each by source and target",
}
FN = {"B01": b01, "B02": b02, "B03": b03}
ITEMS = {"B01": b01_items, "B02": b02_items, "B03": b03_items}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=len(tally.sets.get("states", ())) or len(it), transitions=tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = case["case"]
    if pid == "B03" and len(c) > 2:
        c = c[:2]
    FN[pid](_tup(c), t)
