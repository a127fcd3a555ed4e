"""SDK client: the real client runs against a model of the SDK server (routes, token check, asynchronous
results, strategies, markets); every request, history and encoding within the bounds is judged."""
import copy
import itertools
import re
from fractions import Fraction
import json
from math import sqrt

from mc import core, ref
from mc.core import call
from mc.oui import J

import carbon.sdk.sdkbase as SB
from carbon.sdk import CarbonSDK, SDKToken, Tokens, TokenContainer
from carbon import CarbonPair, CarbonOrderUI, CarbonSimulatorUI

ONE = 2 ** 48


def bn(i):
    return {"type": "BigNumber", "hex": hex(int(i))}


def cksum(addr):
    """mixed case, as addresses come from a node"""
    return "0x" + "".join(c.upper() if i % 3 == 0 else c for i, c in enumerate(addr[2:].lower()))


class Reply:
    def __init__(self, status, text):
        self.status_code, self.text, self.ok = status, text, status < 400
        self.content = text.encode()

    def json(self):
        return json.loads(self.text)


SYNCF = ("pairs", "has_liquidity_by_pair", "get_liquidity_by_pair", "get_user_strategies", "get_match_params", "get_trade_data", "get_trade_data_from_actions",
         "compose_trade_by_target_transaction", "compose_trade_by_source_transaction", "create_buy_sell_strategy", "update_strategy", "delete_strategy",
         "get_rate_liquidity_depth_by_pair", "get_min_rate_by_pair", "get_max_rate_by_pair", "plus", "mul", "qplus", "qmul", "get_match_actions")


class Bad(Exception):
    pass


class Server:
    """the routes of resources/sdk/server/sdkserver.mjs with a made-up market"""
    exceptions = type("exceptions", (), dict(RequestException=OSError, ConnectionError=OSError))

    def __init__(self, url="http://localhost:3118", token="carbontoken", base="api"):
        self.url, self.token, self.base = url.rstrip("/"), token, base.strip("/")
        self.log = []           # (method, path, json)
        self.mode = "ok"
        self.results = {}       # reqid -> None (awaiting) or result
        self.nreq = 1000
        self.strats = {}        # id -> params
        self.nid = 7
        self.wallet = "0xWALLET"
        self.submitted = []
        self.swap01 = False

    # -- requests interface
    def get(self, url, headers=None, params=None, **k):
        return self.serve("get", url, headers, None)

    def post(self, url, headers=None, json=None, data=None, **k):
        return self.serve("post", url, headers, json)

    def request(self, method, url, headers=None, json=None, **k):
        return self.serve(method.lower(), url, headers, json if method.lower() == "post" else None)

    def serve(self, method, url, headers, body):
        body = None if body is None else json.loads(json.dumps(body))
        if not url.startswith(self.url):
            raise OSError("no connection to " + url)
        path = url[len(self.url):]
        self.log.append((method, path, copy.deepcopy(body)))
        if self.mode == "down":
            raise OSError("connection refused")
        if self.mode == "html":
            return Reply(200, "<html>gateway</html>")
        if self.mode == "error":
            return Reply(500, "internal error")
        if path == "/" and method == "get":
            return Reply(200, json.dumps({"msg": "Carbon SDK v0.9", "version": "0.9"}))
        pre = "/%s/" % self.base
        if not path.startswith(pre):
            return Reply(404, "Cannot %s %s" % (method.upper(), path))
        parts = path[len(pre):].split("/")
        if (headers or {}).get("token") != self.token:
            return Reply(401, "Unauthorized")
        if method == "get" and parts == ["addr"]:
            return self.ok({"success": True, "data": self.wallet} if self.wallet else {"success": False, "error": "no wallet available"})
        if method == "get" and len(parts) == 2 and parts[0] == "result":
            k = int(parts[1]) if parts[1].isdigit() else None
            if k not in self.results:
                return self.ok({"success": False, "error": "unknown reqid", "reqid": parts[1], "awaiting": False})
            if self.results[k] is None:
                return self.ok({"success": False, "error": "not ready", "awaiting": True})
            return self.ok({"success": True, "data": {"reqid": k, "result": self.results[k]}})
        if method == "post" and parts == ["signsubmittx"]:
            self.submitted.append((body.get("tx"), bool(body.get("sign"))))
            e = self.execute(body.get("tx"))
            return self.ok({"success": False, "error": e} if e else {"success": True, "data": {"txReceipt": {"n": len(self.submitted)}}})
        if method == "post" and len(parts) == 2 and parts[0] == "erc20":
            f = {"decimals": lambda a: DEC[a], "symbol": lambda a: "SYM" + a[-4:], "balance_of": lambda a: bn(int(a[-6:], 16) * len(body["address"]))}[parts[1]]
            return self.ok({"success": True, "data": [f(a.lower()) for a in body["tokens"]]})
        if method == "post" and len(parts) == 2 and parts[0] in ("scall", "ascall"):
            try:
                r, e = self.dispatch(parts[1], body), None
            except Bad as x:
                r, e = None, str(x)
            if parts[0] == "scall":
                return self.ok({"success": False, "error": e} if e else {"success": True, "data": r})
            if e:
                return self.ok({"success": False, "error": e})
            self.nreq += 7
            self.results[self.nreq] = None
            self.pending = getattr(self, "pending", {})
            self.pending[self.nreq] = r
            return self.ok({"success": True, "reqid": self.nreq})
        return Reply(404, "Cannot %s %s" % (method.upper(), path))

    def ok(self, d):
        return Reply(200, json.dumps(d))

    def finish(self, k):
        self.results[k] = self.pending[k]

    # -- the functions of the SDK
    def need(self, p, *names, typ=str):
        out = []
        for k in names:
            if not isinstance(p, dict) or k not in p or not isinstance(p[k], typ):
                raise Bad("%s missing or not a %s in %r" % (k, typ, p))
            out.append(p[k])
        return out

    def addr(self, x):
        if not (isinstance(x, str) and x.startswith("0x") and len(x) == 42):
            raise Bad("invalid address %r" % (x,))
        int(x, 16)
        return x.lower()

    def st(self, p):
        return tuple(self.addr(x) for x in self.need(p, "sourceToken", "targetToken"))

    def rates(self, s, t):
        """(min rate, max rate, liquidity) of selling t for s, in t per s"""
        a, b = int(s[-4:], 16) % 97 + 3, int(t[-4:], 16) % 89 + 2
        lo = b / a
        return lo, lo * (1.25 + (a % 5) / 10), float(a * b)

    def haspair(self, s, t):
        return (int(s[-3:], 16) + 2 * int(t[-3:], 16)) % 3 != 0

    def dispatch(self, f, p):
        if f not in SYNCF:
            raise Bad("unknown method " + f)
        p = p if isinstance(p, dict) else {}
        if f in ("plus", "qplus"):
            return {"func": f, "result": p.get("a") + p.get("b")}
        if f in ("mul", "qmul"):
            return {"func": f, "result": p.get("a") * p.get("b")}
        if f == "pairs":
            return PAIRS_RAW
        if f == "get_match_actions":
            self.need(p, "amountWei"); self.need(p, "tradeByTargetAmount", typ=bool)
            return {"actions": p}
        if f == "has_liquidity_by_pair":
            if "pairList" in p:
                return [self.haspair(*self.st(q)) for q in p["pairList"]]
            return self.haspair(*self.st(p))
        if f == "get_liquidity_by_pair":
            return repr(self.rates(*self.st(p))[2])
        if f == "get_min_rate_by_pair":
            return repr(self.rates(*self.st(p))[0])
        if f == "get_max_rate_by_pair":
            return repr(self.rates(*self.st(p))[1])
        if f == "get_rate_liquidity_depth_by_pair":
            lo, hi, liq = self.rates(*self.st(p))
            r = p["rate"]

            def depth(x):
                if not isinstance(x, str):
                    raise Bad("rate is not a string")
                x = float(x)
                if x > 4 * hi:
                    return {"error": "no rate"}
                return repr(depth_ref(lo, hi, liq, x))
            return [depth(x) for x in r] if isinstance(r, list) else depth(r)
        if f == "get_user_strategies":
            u, = self.need(p, "user")
            return [self.strategy(i) for i in sorted(self.strats) if u == self.wallet]
        if f in ("get_trade_data", "get_match_params"):
            s, t = self.st(p)
            amt, = self.need(p, "amount"); tgt, = self.need(p, "tradeByTargetAmount", typ=bool)
            return tradedata(self.rates(s, t), s, t, amt, tgt) if f == "get_trade_data" else {"src": s, "trg": t, "amount": amt, "tgt": tgt}
        if f == "get_trade_data_from_actions":
            s, t = self.st(p)
            tgt, = self.need(p, "tradeByTargetAmount", typ=bool)
            acts, = self.need(p, "actionsWei", typ=list)
            for a in acts:
                if any(isinstance(v, (int, float)) for v in a.values()):
                    raise Bad("numbers in actions")
            return {"src": s, "trg": t, "tgt": tgt, "acts": acts}
        if f.startswith("compose_trade"):
            s, t = self.st(p)
            lim = "maxInput" if "target" in f else "minReturn"
            d, l = self.need(p, "deadline", lim)
            acts, = self.need(p, "tradeActions", typ=list)
            ov, = self.need(p, "overrides", typ=dict)
            if any(isinstance(v, (int, float)) for a in acts for v in a.values()):
                raise Bad("numbers in actions")
            return {"tx": f, "src": s, "trg": t, "acts": acts, "deadline": d, "limit": l, "gas": ov.get("gasLimit")}
        if f == "create_buy_sell_strategy":
            b, q = (self.addr(x) for x in self.need(p, "baseToken", "quoteToken"))
            v = self.need(p, "buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")
            return {"tx": "create", "base": b, "quote": q, "v": v, "gas": (p.get("overrides") or {}).get("gasLimit")}
        if f == "delete_strategy":
            i, = self.need(p, "strategyId")
            return {"tx": "delete", "id": i, "gas": (p.get("overrides") or {}).get("gasLimit")}
        if f == "update_strategy":
            i, = self.need(p, "strategyId")
            u, = self.need(p, "update", typ=dict)
            return {"tx": "update", "id": i, "u": u, "mb": p.get("buyMarginalPrice"), "ms": p.get("sellMarginalPrice"), "base": p.get("baseToken"), "quote": p.get("quoteToken")}

    def execute(self, tx):
        if not isinstance(tx, dict):
            return "no transaction"
        if tx["tx"] == "create":
            self.nid += 5
            self.strats[self.nid] = dict(base=tx["base"], quote=tx["quote"], v=list(tx["v"]))
        elif tx["tx"] == "delete":
            if int(tx["id"]) not in self.strats:
                return "no such strategy"
            del self.strats[int(tx["id"])]
        return None

    def strategy(self, i):
        s = self.strats[i]
        b, q = s["base"], s["quote"]
        pl, ph, pb, sl, sh, sb = [float(x) for x in s["v"]]
        db, dq = DEC.get(b, 18), DEC.get(q, 18)
        w = 10.0 ** (dq - db)
        o0 = enc(int(sb * 10 ** db), 1 / (sh * w), 1 / (sl * w))
        o1 = enc(int(pb * 10 ** dq), pl * w, ph * w)
        return {"id": bn(i), "baseToken": cksum(b), "quoteToken": cksum(q), "buyPriceLow": s["v"][0], "buyPriceHigh": s["v"][1], "buyBudget": s["v"][2],
                "sellPriceLow": s["v"][3], "sellPriceHigh": s["v"][4], "sellBudget": s["v"][5],
                "encoded": {"id": bn(i), "token0": cksum(b), "token1": cksum(q), "order0": o0, "order1": o1}}


def depth_ref(lo, hi, liq, x):
    return liq * min(max((hi - x) / (hi - lo), 0), 1)


def tradedata(rates, s, t, amt, tgt):
    lo, hi, liq = rates
    a = float(amt)
    src, trg = (a / hi, a) if tgt else (a, a * hi)
    return {"tradeActions": [{"strategyId": bn(2 ** 128 + 5), "amount": bn(int(a * 10 ** 9))}, {"strategyId": bn(12), "amount": bn(77)}],
            "actionsTokenRes": [{"id": bn(2 ** 128 + 5), "input": repr(src), "output": repr(trg)}],
            "actionsWei": [{"id": bn(2 ** 128 + 5), "input": bn(int(src * 10 ** 6)), "output": bn(int(trg * 10 ** 9))}],
            "totalSourceAmount": repr(src), "totalTargetAmount": repr(trg), "effectiveRate": repr(trg / src)}


# exact reference of the contract's number format
def rfloat(v):
    """(mantissa, exponent) word of an integer"""
    e = (v >> 48).bit_length()
    return (v >> e) | (e << 48)


def runfloat(w):
    return (w % ONE) << (w >> 48)


def rrate(x):
    v = int(sqrt(x) * ONE)
    l = (v >> 48).bit_length()
    return (v >> l) << l


def enc(y, lo, hi):
    return {"y": bn(y), "z": bn(y), "A": bn(rfloat(rrate(hi) - rrate(lo))), "B": bn(rfloat(rrate(lo)))}


DEC = {t.a: t.d for t in Tokens}
PAIRS_RAW = [[Tokens.ETH.a, Tokens.USDC.a], [Tokens.LINK.a, Tokens.ETH.a], [Tokens.USDC.a, Tokens.WBTC.a]]
XTKN = TokenContainer([SDKToken("XAA", "0x" + "a1" * 20, 18), SDKToken("XBB", "0x" + "b3" * 20, 6), SDKToken("ETH", Tokens.ETH.a, 18)])
DEC.update({t.a: t.d for t in XTKN})


class With:
    """the client talks to the model server"""

    def __init__(self, server):
        self.s = server

    def __enter__(self):
        self.old = SB.requests
        SB.requests = self.s
        return self.s

    def __exit__(self, *a):
        SB.requests = self.old


def client(**k):
    k.setdefault("disclaimer", False); k.setdefault("verbose", False)
    return CarbonSDK(**k)


# ---------------------------------------------------------------- E01

URLS = (None, "http://10.0.0.7:99", "http://10.0.0.7:99/")
BASES = (None, "api", "/api/", "gate/v2")
HOPS = ("plus", "qmul", "match", "finish0", "finish1", "poll0", "poll1", "pollx", "down", "up", "unauth", "html")


def e01_items(th):
    for u in range(len(URLS)):
        for b in range(len(BASES)):
            for sd in (None, True, False):
                for roe in (None, True, False):
                    yield ("conf", u, b, sd, roe)
    for roe in (True, False):
        for first in itertools.product(range(len(HOPS)), repeat=2):
            yield ("hist", roe, first, 6 if th else 5)
    for m in ("ok", "down", "html", "error", "unauth"):
        yield ("endpoints", m)
    yield ("text",)


def e01(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "text":
        return e_text(j, t)
    if item[0] == "conf":
        return e_conf(item, j, t)
    if item[0] == "endpoints":
        return e_endpoints(item[1], j, t)
    _, roe, first, depth = item
    for rest in itertools.product(range(len(HOPS)), repeat=depth - 2):
        e_hist(J(t, ["hist", roe, first + rest]), t, roe, [HOPS[i] for i in first + rest])
        t.add("histories")


def e_conf(item, j, t):
    _, u, b, sd, roe = item
    url, base = URLS[u], BASES[b]
    srv = Server(url or "http://localhost:3118", base=base or "api")
    with With(srv):
        c = client(url=url, apibase=base, syncdefault=sd, raiseonerror=roe)
        r, e = call(c.version)
        j.true("version", e is None and r.get("version") == "0.9", "%r %r" % (r, e))
        r, e = call(c.addr)
        j.true("addr", e is None and r == srv.wallet, "%r %r" % (r, e))
        for sync in (True, False, None):
            eff = (sd if sd is not None else False) if sync is None else sync
            n0 = len(srv.log)
            for f, w in (("plus", 12), ("qmul", 35)):
                r, e = call(lambda: getattr(c, f)(5, 7, sync=sync))
                path = "/%s/%s/%s" % ((base or "api").strip("/"), "scall" if eff else "ascall", f)
                j.true("route", srv.log[-1] == ("post", path, {"a": 5, "b": 7}) if len(srv.log) > n0 else False, "%s sync=%s: %r %r" % (f, sync, srv.log[n0:], e))
                if eff:
                    d, e2 = call(lambda: r.json())
                    j.true("synchronous result", e is None and e2 is None and d == {"success": True, "data": {"func": f, "result": w}}, "%r %r" % (r, e))
                else:
                    j.true("request id", e is None and r == srv.nreq and srv.nreq in srv.results, "%r %r" % (r, e))
                    if e is None and r in srv.results:
                        j.true("awaiting", call(c.result, r) == (True, None), "")
                        srv.finish(r)
                        v, e = call(c.result, r)
                        j.true("result", e is None and v == {"func": f, "result": w}, "%r %r" % (v, e))
        # a different token is refused
        c2 = client(url=url, apibase=base, token="other", syncdefault=sd, raiseonerror=roe)
        r, e = call(c2.plus, 1, 2, sync=True)
        j.true("token", e is None and r.status_code == 401, "%r %r" % (r, e))
        r, e = call(c2.getMinRateByPair, Tokens.ETH.a, Tokens.USDC.a)
        j.true("refused", isinstance(e, RuntimeError), "%r %r" % (r, e))
        # GET requests have no parameters, and unknown methods are refused
        n0 = len(srv.log)
        for sync in (True, False):
            for meth in ("get", "put"):
                r, e = call(lambda: c.call("plus", {"a": 1, "b": 2}, meth, sync))
                j.true("method", isinstance(e, (c.CarbonSDKValueError, c.APICallError)) and len(srv.log) == n0, "%s %s: %r %r" % (meth, sync, r, e))


def e_hist(j, t, roe, ops):
    srv = Server()
    known = []          # (request id, expected)
    mode = "ok"
    with With(srv):
        c = client(raiseonerror=roe)
        for k, op in enumerate(ops):
            tag = "%s in %s" % (op, ops[:k + 1])
            if op in ("down", "html"):
                srv.mode = op; continue
            if op == "up":
                srv.mode = "ok"; srv.token = "carbontoken"; continue
            if op == "unauth":
                srv.token = "secret"; continue
            bad = srv.mode if srv.mode != "ok" else ("unauth" if srv.token != "carbontoken" else None)
            if op[:6] == "finish":
                i = int(op[6:])
                if i < len(known):
                    srv.finish(known[i][0]); known[i] = known[i][:2] + (True,)
                continue
            before = copy.deepcopy((srv.results, srv.strats, srv.submitted))
            if op[:4] == "poll":
                if op == "pollx":
                    rid, st = 999, "unknown"
                else:
                    i = int(op[4:])
                    if i >= len(known):
                        continue
                    rid, st = known[i][0], "done" if known[i][2] else "awaiting"
                r, e = call(c.result, rid)
                if bad:
                    j.true("poll of failing server", isinstance(e, c.APICallError), "%s: %r %r" % (tag, r, e))
                elif st == "unknown":
                    j.true("unknown request", isinstance(e, c.UnknownReqIdError) if roe else (e is None and r is False), "%s: %r %r" % (tag, r, e))
                elif st == "awaiting":
                    j.true("awaiting", e is None and r is True, "%s: %r %r" % (tag, r, e))
                else:
                    j.true("result", e is None and r == known[i][1], "%s: %r %r" % (tag, r, e))
                j.true("poll changes nothing", (srv.results, srv.strats, srv.submitted) == before, tag)
            else:
                f = {"plus": lambda: c.plus(k + 1, 3, sync=False), "qmul": lambda: c.qmul(k + 1, 3, sync=False), "match": lambda: c.getMatchParams(Tokens.ETH.a, Tokens.USDC.a, k + 1, bool(k % 2), sync=False)}[op]
                w = {"plus": {"func": "plus", "result": k + 4}, "qmul": {"func": "qmul", "result": 3 * k + 3},
                     "match": {"src": Tokens.ETH.a, "trg": Tokens.USDC.a, "amount": str(k + 1), "tgt": bool(k % 2)}}[op]
                r, e = call(f)
                if bad in ("html", "unauth"):
                    j.true("failing server", isinstance(e, c.APICallError), "%s: %r %r" % (tag, r, e))
                elif bad == "down":
                    j.true("no server", isinstance(e, (c.AsyncAPICallError, c.APICallError)) if roe else (e is None and r is False), "%s: %r %r" % (tag, r, e))
                elif j.true("request id", e is None and r == srv.nreq, "%s: %r %r" % (tag, r, e)):
                    known.append((r, w, False))


def ep_cases(srv, c):
    """(name, call of the client, answer expected)"""
    T = Tokens
    E, U = T.ETH.a, T.USDC.a
    lo, hi, liq = srv.rates(E, U)
    acts = [{"strategyId": 2 ** 128 + 5, "amount": 17}]
    sacts = [{"strategyId": str(2 ** 128 + 5), "amount": "17"}]
    ov = {"gasLimit": 5}
    big = 999999999
    cases = [
        ("pairs", lambda: client().pairs(), PAIRS_RAW),
        ("pairs tokens", lambda: [[x.T for x in p] for p in c.pairs()], [["ETH", "USDC"], ["LINK", "ETH"], ["USDC", "WBTC"]]),
        ("pairs string", lambda: c.pairs(inclstr=True)[1], "ETH/USDC, LINK/ETH, USDC/WBTC"),
        ("pairs own tokens", lambda: [[getattr(x, "T", x) for x in p] for p in client(Tokens=XTKN).pairs()], [["ETH", U], [T.LINK.a, "ETH"], [U, T.WBTC.a]]),
        ("has liquidity", lambda: c.hasLiquidityByPair(E, U), srv.haspair(E, U)),
        ("has liquidity list", lambda: c.hasLiquidityByPair(pairs=[dict(sourceToken=E, targetToken=U), dict(sourceToken=U, targetToken=E)]), [srv.haspair(E, U), srv.haspair(U, E)]),
        ("liquidity", lambda: c.getLiquidityByPair(E, U), liq), ("min rate", lambda: c.getMinRateByPair(E, U), lo), ("max rate", lambda: c.getMaxRateByPair(E, U), hi),
        ("depth", lambda: c.getRateLiquidityDepthByPair(E, U, (lo + hi) / 2), depth_ref(lo, hi, liq, float(str((lo + hi) / 2)))),
        ("depth list", lambda: c.getRateLiquidityDepthByPair(E, U, [lo, hi, lo / 2, 5 * hi]), [liq, 0.0, liq, None]),
        ("strategies", lambda: c.getUserStrategies(srv.wallet), []),
        ("trade data", lambda: c.getTradeData(E, U, 3.5, True), tradedata((lo, hi, liq), E, U, "3.5", True)),
        ("by target", lambda: c.composeTradeByTargetTransaction(E, U, acts, 77, 88, ov), {"tx": "compose_trade_by_target_transaction", "src": E, "trg": U, "acts": sacts, "deadline": "77", "limit": "88", "gas": 5}),
        ("by source", lambda: c.composeTradeBySourceTransaction(E, U, acts, 77, 88, ov), {"tx": "compose_trade_by_source_transaction", "src": E, "trg": U, "acts": sacts, "deadline": "77", "limit": "88", "gas": 5}),
        ("by target defaults", lambda: c.composeTradeByTargetTransaction(U, E), {"tx": "compose_trade_by_target_transaction", "src": U, "trg": E, "acts": [], "deadline": str(2 ** 32 - 1), "limit": str(2 ** 128 - 1), "gas": big}),
        ("by source defaults", lambda: c.composeTradeBySourceTransaction(U, E, None), {"tx": "compose_trade_by_source_transaction", "src": U, "trg": E, "acts": [], "deadline": str(2 ** 32 - 1), "limit": "1", "gas": big}),
        ("create", lambda: c.createBuySellStrategy(E, U, 1, 2.5, 3, 4, 5, 6), {"tx": "create", "base": E, "quote": U, "v": ["1", "2.5", "3", "4", "5", "6"], "gas": big}),
        ("delete", lambda: c.deleteStrategy(44), {"tx": "delete", "id": "44", "gas": big}),
        ("balances", lambda: c.getERC20Balance([T.ETH, T.USDC, T.GUSD], "0x12"), {x.T: int(x.a[-6:], 16) * 4 / 10 ** x.d for x in (T.ETH, T.USDC, T.GUSD)}),
        ("decimals", lambda: c.getERC20Decimals([T.CEL, T.ETH]), {"CEL": 4, "ETH": 18}),
        ("symbols", lambda: c.getERC20Symbol([T.CEL, T.ETH]), {"CEL": "SYM" + T.CEL.a[-4:], "ETH": "SYM" + T.ETH.a[-4:]}),
        ("symbols of addresses", lambda: c.getERC20Symbol([E, U]), {E: "SYM" + E[-4:], U: "SYM" + U[-4:]}),
        ("submit", lambda: c.signsubmittx({"tx": "none"}), {"txReceipt": {"n": 1}}),
    ]
    return cases, ov, acts, sacts


def e_endpoints(mode, j, t):
    """every endpoint sends what the server needs, returns its answer, and reports failures"""
    srv = Server()
    T = Tokens
    E, U = T.ETH.a, T.USDC.a
    with With(srv):
        c = client(Tokens=T)
        srv.mode = mode if mode in ("down", "html", "error") else "ok"
        if mode == "unauth":
            srv.token = "x"
        up = CarbonSDK.StrategyUpdate(buyPriceLow=1, sellBudget=0, sellMarginalPrice=3.5)
        cases, ov, acts, sacts = ep_cases(srv, c)
        for tag, f, want in cases:
            r, e = call(f)
            if mode == "ok":
                j.true(tag, e is None and r == want, "%r %r, expected %r" % (r, e, want))
            else:
                j.true(tag + " fails", isinstance(e, RuntimeError), "%s: %r %r" % (mode, r, e))
        if mode == "ok":
            j.true("overrides kept", ov == {"gasLimit": 5} and acts == [{"strategyId": 2 ** 128 + 5, "amount": 17}], "%r %r" % (ov, acts))
            j.true("signed by default", srv.submitted[-1:] == [({"tx": "none"}, True)], "%r" % (srv.submitted,))
            for s in (True, False):
                call(c.signsubmittx, {"tx": "none", "s": 1}, s)
                j.true("signed", srv.submitted[-1] == ({"tx": "none", "s": 1}, s), "%r" % (srv.submitted[-1],))
            r, e = call(c.deleteStrategy, 12345)
            r, e = call(c.signsubmittx, r)
            j.true("failing transaction", isinstance(e, RuntimeError), "%r %r" % (r, e))
            for a in ((E, U), (E, None), (None, U)):
                for l in ([dict(sourceToken=E, targetToken=U)], []):
                    r, e = call(c.hasLiquidityByPair, *a, l)
                    j.true("pair and pairs", isinstance(e, ValueError), "%r %r: %r %r" % (a, l, r, e))
            for mb, ms in ((None, None), (7, None), (None, 8.5), (1, 2)):
                r, e = call(lambda: c.updateStrategy(5, "enc", E, U, up, mb, ms, sync=True).json()["data"])
                w = {"tx": "update", "id": "5", "u": {"buyPriceLow": "1", "sellBudget": "0"}, "mb": None if mb is None else str(mb), "ms": "3.5" if ms is None else str(ms), "base": E, "quote": U}
                j.true("update", e is None and r == w, "%r %r, expected %r" % (r, e, w))
            r, e = call(lambda: c.getMatchActions(5, True, {}, sync=True).json()["data"])
            j.true("match actions", e is None and r == {"actions": {"amountWei": "5", "tradeByTargetAmount": True, "orders": {}}}, "%r %r" % (r, e))
            r, e = call(lambda: c.getTradeDataFromActions(E, U, False, acts, sync=True).json()["data"])
            j.true("trade data from actions", e is None and r == {"src": E, "trg": U, "tgt": False, "acts": sacts}, "%r %r" % (r, e))
            srv.wallet = None
            j.true("no wallet", call(c.addr) == (None, None), "")
            c0 = client()
            for f in (lambda: c0.mGetLiquidityByPair("ETH/USDC", "ETH"), lambda: c0.mPrepareTrade("ETH/USDC", c0.SELL, "ETH", 1), lambda: c0.mGetUserStrategies("x")):
                r, e = call(f)
                j.true("no tokens", isinstance(e, c0.CarbonSDKValueError) or r == (), "%r %r" % (r, e))


def e_text(j, t):
    S = CarbonSDK
    # camel case <-> snake case
    for n in (1, 2, 3, 4, 5):
        for w in itertools.product("aB1" if n > 4 else "abBC1", repeat=n):
            x = "".join(w)
            if not x[0].islower():
                continue
            s = S.c2s(x)
            t.add("strings")
            j.true("snake case", s == "".join("_" + k.lower() if k.isupper() else k for k in x), "%s -> %s" % (x, s))
            j.true("camel case", S.s2c(s) == x, "%s -> %s -> %s" % (x, s, S.s2c(s)))
    for a in ("http://x", "http://x/", "api", "api/"):
        for b in ("p", "/p", "/p/q", "p/q/"):
            j.true("join", S.join(a, b) == a.rstrip("/") + "/" + b.lstrip("/"), "%s %s" % (a, b))
    # significant digits
    for cls in (S, CarbonOrderUI):
        for m in range(-9, 15):
            for d in (1, 1.5, 2.44449, 3.14159265358979, 5.555555555, 9.99995, 9.4999999):
                x = d * 10.0 ** m
                mag = len("%d" % int(x)) - 1 if x >= 1 else -next(k for k in range(1, 20) if x * 10 ** k >= 1 - 1e-15)
                for n in range(0, 11):
                    r = cls.roundsd(x, n)
                    t.add("numbers")
                    j.true("rounding", abs(r - x) <= 0.5 * 10.0 ** (mag - n + 1) * (1 + 1e-6) + 1e-15, "%r to %d digits: %r" % (x, n, r))
                    txt = ("%.15e" % float(r)).split("e")[0].replace(".", "").rstrip("0")
                    fine = ("%.13e" % float(r)).split("e")[0].replace(".", "").rstrip("0")
                    j.true("digits", r == 0 or min(len(txt), len(fine)) <= n + 1, "%r to %d digits: %r" % (x, n, r))
        for x in (0, None, "abc", [1]):
            j.true("not rounded", cls.roundsd(x, 3) == x, "%r" % (x,))
        for i in (0, 1, 255, 256, 2 ** 48, 2 ** 128 + 1, 10 ** 40):
            j.true("big number", cls.bn2int(bn(i)) == i and type(cls.bn2int(bn(i))) is int and cls.bn2int(S.int2bn(i)) == i, "%r" % (i,))
            j.true("big numbers", cls.bn2intd({"a": bn(i), "b": "x", "c": 3}) == {"a": i, "b": "x", "c": 3}, "%r" % (i,))
            j.true("number to string", S.int2strd({"a": i, "b": "x", "c": 1.5, "d": None}) == {"a": str(i), "b": "x", "c": 1.5, "d": None}, "%r" % (i,))
    j.true("string to float", S.str2floatd({"a": "1.5", "b": 3, "c": bn(3)}) == {"a": 1.5, "b": 3, "c": bn(3)}, "")


# ---------------------------------------------------------------- E02

TK = [(n, a) for n in ("AAA", "BBB", "CCC") for a in (1, 2)]


def e02_items(th):
    for n in range(0, 5 if th else 4):
        for c in itertools.product(range(len(TK)), repeat=n):
            yield ("cont", c)
    for d in (None, 0, 2, 4, 6, 8, 18):
        yield ("tok", d)
    yield ("std",)


def e02(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "tok":
        return e_token(item[1], j, t)
    ad = lambda k: "0x" + "0%dF" % k + "a" * 37
    if item[0] == "std":
        T, toks = Tokens, list(Tokens)
        j.true("standard tokens", len(toks) == len(T) == len({x.T for x in toks}) == len({x.a for x in toks}) and all(x.d is not None for x in toks), "")
    else:
        toks = [SDKToken(n, ad(a), 6) for n, a in (TK[i] for i in item[1])]
        T, e = call(TokenContainer, toks)
        cons = len({x.T for x in toks}) == len({x.a for x in toks}) == len({(x.T, x.a) for x in toks})
        if not cons:
            j.true("duplicates", isinstance(e, ValueError), "%r accepted" % (toks,))
            return
        if not j.true("container", e is None, "%r" % (e,)):
            return
        toks = list({x.T: x for x in toks}.values())
        for o in (TokenContainer.fromlist([tuple(x) for x in toks]), TokenContainer.fromlist(T), TokenContainer.fromlist(T._all),
                  TokenContainer.fromcsv("\n".join(" %s , %s ,%s " % (x.T.lower(), x.a.upper().replace("0X", "0x"), x.d) for x in toks))):
            j.true("same container", [tuple(x) for x in o] == [tuple(x) for x in T], "%r" % (o,))
    names, addrs = {x.T for x in toks}, {x.a for x in toks}
    j.true("size", len(T) == len(toks) and list(T) == toks and list(T._all) == toks, "%r" % (list(T),))
    for x in toks:
        for g in (lambda: T[x.T], lambda: T[x.T.lower()], lambda: getattr(T, x.T), lambda: T.byticker(x.T), lambda: T.byticker(x.T.title()), lambda: T.byaddr(x.a), lambda: T.byaddr(cksum(x.a)),
                  lambda: T.byaddr1(x.a), lambda: T(x.a), lambda: T(cksum(x.a)), lambda: T.restore(x.T), lambda: T.restore(x.T.lower(), True), lambda: T.restore(x.a, False), lambda: T.restore(cksum(x.a), True), lambda: T.restore(x, True)):
            r, e = call(g)
            j.true("lookup", e is None and r == x, "%s: %r %r" % (x.T, r, e))
        j.true("lookup name", T.byaddr1(x.a, tknonly=True) == x.T, "")
        j.true("hash", len({x, SDKToken(*tuple(x))}) == 1, "")
    ux, ua = "NOPE", "0x" + "f" * 40
    for roe0 in (None, True, False):
        C = TokenContainer(toks, roe0)
        for roe in (None, True, False):
            eff = roe if roe is not None else (roe0 is not False)
            for null in (True, False):
                for f, k in ((C.byticker, ux), (C.byaddr, ua)):
                    r, e = call(f, k, roe, null)
                    ok = isinstance(e, KeyError) if eff else (e is None and (r.isnul if null else r is None))
                    j.true("missing", ok, "%r %r %r: %r %r" % (roe0, roe, null, r, e))
            if not eff:
                for f, k in ((C.byticker, ux), (C.byaddr, ua)):
                    r, e = call(f, k, roe)
                    j.true("missing", e is None and r is not None and r.isnul, "%r %r: %r %r" % (roe0, roe, r, e))
            if roe is not None:
                for k in (ux, ua):
                    r, e = call(C.restore, k, roe)
                    j.true("missing restore", isinstance(e, ValueError) if roe else (r is None and e is None), "%r %r" % (r, e))
        r, e = call(lambda: C[ux])
        j.true("missing item", isinstance(e, KeyError) if roe0 is not False else r.isnul, "%r %r" % (r, e))
        j.true("missing address", C.byaddr1(ua) == ua and C(ua) == ua and C.byaddr1(ua, tknonly=True) == ua, "")
    for n in range(0, 3):
        for c in itertools.combinations(sorted(names)[:4] + [ux], n):
            j.true("contains all", T.containsall(set(c)) == (ux not in c), "%r" % (c,))


def e_token(d, j, t):
    A = "0x" + "Ab" * 20
    k, e = call(SDKToken, " tkn ", " %s " % A, d)
    if not j.true("token", e is None, "%r" % (e,)):
        return
    j.true("token fields", (k.T, k.a, k.d, k.name, k.token, k.address, k.decimals) == ("TKN", A.lower(), d, "TKN", "TKN", A.lower(), d), "%r" % (k,))
    j.true("token name", SDKToken("tkn", A, d, "My Token").name == "My Token" and SDKToken("t", A, None if d is None else str(d)).d == d, "")
    j.true("same token", SDKToken("tkn", A.upper().replace("0X", "0x"), d) == k == SDKToken(*tuple(k)) and k != SDKToken("tkn", A[:-1] + "1", d), "")
    for nm in ("", " ", A, A.lower(), "tkn", "0", "My, Token"):
        q = SDKToken("tkn", A, d, nm)
        j.true("given name", q.name == nm and SDKToken(*tuple(q)).name == nm and SDKToken(*tuple(q)) == q, "%r: %r" % (nm, q))
    for a in ("Ab" * 20, "12" * 20, "0012", "0x0012", "0"):
        q, e = call(SDKToken, "tkn", a, d)
        if j.true("address notation", e is None and q.a == a.lower(), "%r: %r %r" % (a, q, e)):
            h, e = call(hash, q)
            r, e2 = call(lambda: TokenContainer([q]).byaddr(a.upper()))
            j.true("address notation", e is None and h == hash(SDKToken("tkn", a, d)) and e2 is None and r is q, "%r: %r %r" % (a, e, e2))
    for bad in ("xyz", "", "0x", "0xg1"):
        r, e = call(SDKToken, "tkn", bad, d)
        j.true("bad address", isinstance(e, ValueError), "%r %r" % (bad, r))
    D = 18 if d is None else d
    for w in list(range(0, 200)) + [10 ** D + i for i in range(-3, 4)] + [123456, 999999, 29 * 10 ** max(D - 2, 0), 57 * 10 ** max(D - 2, 0)]:
        if w < 0:
            continue
        v, e = call(k.w2t, w)
        t.add("numbers")
        if not j.true("wei to token", e is None and abs(v - w / 10 ** D) <= 1e-15 * abs(v), "%r: %r %r" % (w, v, e)):
            return
        b, e = call(k.t2w, v)
        if w < 10 ** 15 or w % 10 ** 15 == 0:
            j.true("token to wei and back", e is None and b == w and isinstance(b, int), "%r -> %r -> %r %r" % (w, v, b, e))
    for x in (1.99999999999, 0.55555555555, 12345.6789, 0.5, 0.09, 7.7777e-5):
        w = int(Fraction(repr(x)) * 10 ** D)
        b, e = call(k.t2w, x)
        j.true("surplus digits are cut", e is None and b == w, "%r: %r %r, expected %d" % (x, b, e, w))
    for n in (0, 1, 7, 10 ** 9, 2 ** 70 + 1):
        j.true("whole tokens", k.t2w(n) == n * 10 ** D, "%r: %r" % (n, k.t2w(n)))


# ---------------------------------------------------------------- E03

MP = [("ETH/USDC", None), ("USDC/ETH", None), ("LINK/ETH", None), ("WBTC/USDT", None), ("GUSD/CEL", None), ("XAA/XBB", "x"), ("XBB/ETH", "x")]


def e03_items(th):
    for i in range(len(MP)):
        for form in ("str", "obj"):
            yield ("market", i, form)
            for side in ("BUY", "SELL"):
                for which in (0, 1):
                    for amt in ((1, 0.5, 1e-6, 12345.678) if th else (1, 0.37, 4321.5)):
                        yield ("trade", i, form, side, which, amt)
    yield ("many",)
    for i in (0, len(MP) - 1):
        for form in ("str", "obj"):
            yield ("create", i, form)
    ops = ("c0", "c1", "c2", "sub", "del0", "del1", "delx")
    for c in itertools.product(ops, repeat=2):
        yield ("strat", c, 5 if th else 4)


def e03(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    srv = Server()
    if item[0] == "strat":
        for rest in itertools.product(("c0", "c1", "c2", "sub", "del0", "del1", "delx"), repeat=item[2] - 2):
            t.add("histories")
            core.arm()
            e_strat(J(t, ["strat", item[1] + rest]), item[1] + rest, t)
        return
    with With(srv):
        if item[0] == "many":
            return e_many(j, srv)
        name, x = MP[item[1]]
        T = XTKN if x else Tokens
        c = client(Tokens=T)
        b, q = name.split("/")
        arg = name if item[2] == "str" else CarbonPair(name)
        B, Q = T[b], T[q]
        if item[0] == "create":
            return e_create(j, srv, c, arg, B, Q, t)
        if item[0] == "trade":
            return e_trade(item, j, srv, c, arg, name, B, Q)
        # bid: the AMM sells the quote token; rates are in target per source
        lo_b, hi_b, liq_b = srv.rates(B.a, Q.a)       # quote per base
        lo_a, hi_a, liq_a = srv.rates(Q.a, B.a)       # base per quote
        W = {q: ("bid", hi_b, lo_b, liq_b, False), b: ("ask", 1 / hi_a, 1 / lo_a, liq_a, True)}
        for tkn, (ba, st, en, liq, inv) in W.items():
            r, e = call(c.mGetRangeByPair, arg, tkn)
            if j.true("range", e is None, "%r" % (e,)):
                j.eq("range start", r.startRate, st, 1e-9); j.eq("range end", r.endRate, en, 1e-9)
                j.true("range fields", (r.AMMsells, r.AMMbuys, r.bidAsk, r.pair.slashpair, bool(r.inverted)) == (tkn, q if tkn == b else b, ba, name, inv), "%r" % (r,))
            r, e = call(c.mGetLiquidityByPair, arg, tkn)
            if j.true("liquidity", e is None, "%r" % (e,)):
                j.eq("liquidity amount", r.amount, liq, 1e-9)
                j.true("liquidity fields", (r.unit, r.AMMsells, r.bidAsk, r.pair.slashpair, r.rate) == (tkn, tkn, ba, name, None), "%r" % (r,))
            r, e = call(c.mHasLiquidityByPair, arg, tkn)
            j.true("has liquidity", e is None and r == (srv.haspair(B.a, Q.a) if tkn == q else srv.haspair(Q.a, B.a)), "%r %r" % (r, e))
            rates = [st, en, (st + en) / 2, st + 0.1 * (en - st)]
            lo, hi, lq = srv.rates(B.a, Q.a) if tkn == q else srv.rates(Q.a, B.a)
            want = [depth_ref(lo, hi, lq, 1 / z if inv else z) for z in rates]
            for z, w in zip(rates, want):
                r, e = call(c.mGetRateLiquidityDepthByPair, z, arg, tkn)
                if j.true("depth", e is None, "%r" % (e,)):
                    j.eq("depth amount", r.amount, w, 1e-6, 1e-6 * lq)
                    j.true("depth fields", (r.rate, r.unit, r.bidAsk, r.islist, bool(r.inverted)) == (z, tkn, ba, False, inv), "%r" % (r,))
            for n in (4, 1, 2):
                r, e = call(c.mGetRateLiquidityDepthByPair, rates[:n], arg, tkn)
                ok = j.true("depth list", e is None and r.islist is True and len(r.amount) == n and list(r.rate) == rates[:n], "%r %r" % (r, e))
                if ok:
                    for g, w in zip(r.amount, want[:n]):
                        j.eq("depth amounts", g, w, 1e-6, 1e-6 * lq)
        m, e = call(c.mGetMarketByPair, arg)
        if j.true("market", e is None, "%r" % (e,)):
            for f, w in (("bestBid", hi_b), ("lastBid", lo_b), ("bestAsk", 1 / hi_a), ("lastAsk", 1 / lo_a), ("liqBid", liq_b), ("liqAsk", liq_a)):
                j.eq("market " + f, getattr(m, f), w, 1e-9)
            j.true("market pair", m.pair == name and m.cpair.slashpair == name and m.price_convention == "%s per %s" % (q, b), "%r" % (m,))
            j.true("market tokens", (m.liqBidUnit, m.liqAskUnit, m.bidAMMSells, m.askAMMSells, m.bidTraderSells, m.askTraderSells) == (q, b, q, b, b, q), "")
            j.eq("market mid", m.mid, (hi_b + 1 / hi_a) / 2, 1e-9)
            j.eq("market spread", m.spread, 1 / hi_a - hi_b, 1e-7, 1e-9 * hi_b)
            j.eq("market spreadpc", m.spreadpc, m.spread / m.mid, 1e-9)
            j.true("market inverted", m.inverted == (hi_b > 1 / hi_a), "")
            for z in (0, 0.25, 1, 1.5):
                j.eq("ibid", m.ibid(z), hi_b + z * (lo_b - hi_b), 1e-9); j.eq("iask", m.iask(z), 1 / hi_a + z * (1 / lo_a - 1 / hi_a), 1e-9)
                j.eq("iall", m.iall(z), lo_b + z * (1 / lo_a - lo_b), 1e-9)


def e_many(j, srv):
    c = client(Tokens=Tokens)
    names = ["ETH/USDC", "LINK/ETH", "USDC/WBTC"]
    for n in range(1, 4):
        for sub in itertools.permutations(names, n):
            w = []
            for p in sub:
                b, q = (Tokens[x] for x in p.split("/"))
                w += [(p, q.T, srv.haspair(b.a, q.a)), (p, b.T, srv.haspair(q.a, b.a))]
            for arg in (", ".join(sub), list(sub), [CarbonPair(p) for p in sub]):
                r, e = call(c.mHasLiquidityByPairs, arg)
                g = None if e else [(x["pair"].slashpair, x["AMMsells"], x["hasLiquidity"]) for x in r]
                j.true("has liquidity many", g == w, "%r: %r %r, expected %r" % (arg, g, e, w))


def e_trade(item, j, srv, c, arg, name, B, Q):
    _, i, form, side, which, amt = item
    tkn = (B, Q)[which]
    oth = (Q, B)[which]
    src, trg = (tkn, oth) if side == "SELL" else (oth, tkn)
    tgt = side == "BUY"
    rates = srv.rates(src.a, trg.a)
    raw = tradedata(rates, src.a, trg.a, str(amt), tgt)
    d, e = call(c.mPrepareTrade, arg, getattr(c, side), tkn.T, amt)
    if not j.true("prepare", e is None, "%r" % (e,)):
        return
    p = srv.log[-1][2]
    j.true("request", (p["sourceToken"], p["targetToken"], float(p["amount"]), p["tradeByTargetAmount"]) == (src.a, trg.a, amt, tgt), "%r" % (p,))
    j.true("trade fields", (d.pair, d.tkn, d.traderBuySell, d.amount, d.sourceToken, d.targetToken, d.tradeByTargetAmount) == (name, tkn.T, side, amt, src, trg, tgt), "%r" % (d,))
    ints = lambda l: [{k: int(v["hex"], 16) for k, v in x.items()} for x in l]
    j.true("actions", d.tradeActions == ints(raw["tradeActions"]) and d.actionsWei == ints(raw["actionsWei"]), "%r %r" % (d.tradeActions, d.actionsWei))
    a = raw["actionsTokenRes"][0]
    j.true("actions in tokens", d.actionsTokenRes == [{"id": 2 ** 128 + 5, "input": float(a["input"]), "output": float(a["output"])}], "%r" % (d.actionsTokenRes,))
    j.true("totals", d.tradeData == {k: float(raw[k]) for k in ("totalSourceAmount", "totalTargetAmount", "effectiveRate")}, "%r" % (d.tradeData,))
    for dev in (None, 0, 0.01, 0.5):
        for dl in (None, 123):
            kw = dict(maxDeviationPc=dev, deadline=dl)
            for f in (lambda: c.mComposeTradeTransaction(**d.cttkwargs, **kw), lambda: c.mComposeTradeTransaction(*d.cttargs, **kw)):
                x, e = call(f)
                if not j.true("compose", e is None, "%r" % (e,)):
                    continue
                dv = 0.1 if dev is None else dev
                w = float(raw["totalSourceAmount"]) * (1 + dv) if tgt else float(raw["totalTargetAmount"]) * (1 - dv)
                j.eq("limit", x["limit"], w, 1e-9)
                j.true("transaction", (x["tx"], x["src"], x["trg"], x["deadline"]) == ("compose_trade_by_%s_transaction" % ("target" if tgt else "source"), src.a, trg.a, str(2 ** 32 - 1) if dl is None else "123"), "%r" % (x,))
                j.true("transaction actions", x["acts"] == [{k: str(v) for k, v in y.items()} for y in ints(raw["tradeActions"])], "%r" % (x,))
    for f in (lambda: c.mPrepareTrade(arg, "buy", tkn.T, 1), lambda: c.mPrepareTrade(arg, c.BUY, "DAI", 1), lambda: c.mPrepareTrade(arg, c.SELL, tkn.T, 0), lambda: c.mPrepareTrade(arg, c.SELL, tkn.T, -1)):
        n = len(srv.log)
        x, e = call(f)
        j.true("bad trade", isinstance(e, ValueError) and len(srv.log) == n, "%r %r" % (x, e))


CREATE = {"c0": ("ETH/USDC", 2000, 2500, 3, 1900, 1500, 1000), "c1": ("WBTC/ETH", 16, 14, 0.5, 10, 12, 7.25), "c2": ("USDC/DAI", 1.02, 1.02, 0, 0.99, 0.98, 400)}


CPRICES = (0.0005, 1500, 1500.5, 1600, 2000, 2500.25)


def e_create(j, srv, c, arg, B, Q, t):
    """strategy ranges in every order and position: the buy range below the sell range, each stated in either direction"""
    for s0, s1, b0, b1 in itertools.product(CPRICES, repeat=4):
        if min(s0, s1) == max(b0, b1):
            continue            # touching ranges: the documentation and the code differ, not judged
        for sa, ba in ((1, 10), (0, 250.5), (3.25, 0)):
            t.add("strategy_ranges")
            n = len(srv.log)
            tx, e = call(lambda: c.mCreateStrategy(arg, s0, s1, sa, b0, b1, ba, None))
            tag = "sell %s..%s x %s, buy %s..%s x %s" % (s0, s1, sa, b0, b1, ba)
            if min(s0, s1) < max(b0, b1):
                j.true("overlapping ranges", isinstance(e, ValueError) and len(srv.log) == n, "%s: %r %r" % (tag, tx, e))
                continue
            want = (B.a, Q.a, [float(x) for x in (min(b0, b1), max(b0, b1), ba, min(s0, s1), max(s0, s1), sa)])
            j.true("created", e is None and (tx["base"], tx["quote"], [float(x) for x in tx["v"]]) == want, "%s: %r %r, expected %r" % (tag, tx, e, want))


def e_strat(j, ops, t):
    """create, submit, delete and list against the server"""
    srv = Server()
    with With(srv):
        c = client(Tokens=Tokens)
        tx, model, nid = None, {}, 7
        for k, op in enumerate(ops):
            tag = "%s" % (ops[:k + 1],)
            if op[0] == "c":
                pair, s0, s1, sa, b0, b1, ba = CREATE[op]
                tx, e = call(lambda: c.mCreateStrategy(pair, sellRangeStart=s0, sellRangeEnd=s1, sellAmountTknB=sa, buyRangeStart=b0, buyRangeEnd=b1, buyAmountTknQ=ba, overrides=None))
                b, q = pair.split("/")
                want = (Tokens[b].a, Tokens[q].a, [float(x) for x in (min(b0, b1), max(b0, b1), ba, min(s0, s1), max(s0, s1), sa)])
                j.true("create", e is None and (tx["base"], tx["quote"], [float(x) for x in tx["v"]]) == want, "%s: %r %r, expected %r" % (tag, tx, e, want))
                kind = op
            elif op == "sub":
                r, e = call(c.signsubmittx, tx)
                if tx is None:
                    j.true("no transaction", isinstance(e, RuntimeError), "%r %r" % (r, e))
                elif tx["tx"] == "create":
                    j.true("submit", e is None and srv.submitted[-1][1], "%s %r %r" % (tag, r, e))
                    nid += 5
                    model[nid] = kind
                elif int(tx["id"]) in model:
                    j.true("submit delete", e is None, "%r" % (e,))
                    del model[int(tx["id"])]
                else:
                    j.true("submit bad delete", isinstance(e, RuntimeError), "%r %r" % (r, e))
            else:
                ids = sorted(model)
                i = 4444 if op == "delx" or int(op[3:]) >= len(ids) else ids[int(op[3:])]
                tx, e = call(c.deleteStrategy, i)
                j.true("delete", e is None and tx["tx"] == "delete" and tx["id"] == str(i), "%r %r" % (tx, e))
        l, e = call(c.mGetUserStrategies, srv.wallet)
        if not j.true("strategies", e is None and len(l) == len(model) and [s.sid for s in l] == sorted(model), "%r %r" % (l, e)):
            return
        for s in l:
            chk_strategy(j, c, s, model[s.sid], srv.strategy(s.sid))
        if srv.strats:
            S, e = call(CarbonSimulatorUI, raiseonerror=True)
            for s in l:
                r, e = call(S.add_fromsdk, s, 6)
                if not j.true("add_fromsdk", e is None and r["success"], "%s: %r" % (s, e)):
                    return
            o = S.state()["orders"]
            rows = []
            for s in l:
                pair, s0, s1, sa, b0, b1, ba = CREATE[model[s.sid]]
                b, q = pair.split("/")
                rows += [(pair, b, float(min(s0, s1)), float(max(s0, s1)), float(sa)), (pair, q, float(max(b0, b1)), float(min(b0, b1)), float(ba))]
            # the simulator always has the pair in its own price convention
            if j.true("imported orders", len(o) == len(rows), "%r" % (o,)):
                for w, (_, g) in zip(rows, o.iterrows()):
                    j.true("imported tokens", g["tkn"] == w[1] and g["pair"] == CarbonPair(w[0]).pair_iso, "%r, expected %r" % (dict(g), w))
                    for f, v in (("p_start", w[2]), ("p_end", w[3]), ("y", w[4])):
                        j.eq("imported " + f, g[f], v, 1e-6, 1e-9)


def text_is(j, what, text, words, nums, tol=1e-9):
    """the text states these words in this order, and these numbers in this order"""
    pos = -1
    for w in words:
        pos = text.find(w, pos + 1) if isinstance(text, str) else -1
        if not j.true(what + " words", pos >= 0, "%r, expected %r" % (text, words)):
            return
    for w in sorted(set(words), key=len, reverse=True):
        text = text.replace(w, " ")
    got = [float(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![\w])", text.replace("..", " "))]
    if j.true(what + " numbers", len(got) == len(nums), "%r, expected %r" % (text, nums)):
        for g, n in zip(got, nums):
            j.eq(what + " number", g, n, tol)


def chk_descr(j, s):
    """the texts: what is sold, at which prices, in the quote token per base token for both sides"""
    e = s.encoded
    n = lambda o: (o.p_start, o.p_end)
    t, x = call(lambda: s.descr)
    if j.true("description", x is None and len(t) == 2, "%r %r" % (t, x)):
        text_is(j, "description", t[0], ("order0", "selling", s.baseToken, s.quoteToken, "per", s.baseToken), (s.sellPriceLow, s.sellPriceHigh))
        text_is(j, "description", t[1], ("order1", "buying", s.baseToken, s.quoteToken, "per", s.baseToken), (s.buyPriceHigh, s.buyPriceLow))
    t, x = call(lambda: e.descr)
    if j.true("description encoded", x is None and len(t) == 2, "%r %r" % (t, x)):
        text_is(j, "description encoded", t[0], ("order0", "selling", e.token0, e.token1, "per", e.token0), [1 / p for p in n(e.order0)])
        text_is(j, "description encoded", t[1], ("order1", "buying", e.token0, e.token1, "per", e.token0), n(e.order1))


def chk_strategy(j, c, s, kind, raw):
    chk_descr(j, s)
    pair, s0, s1, sa, b0, b1, ba = CREATE[kind]
    b, q = pair.split("/")
    j.true("strategy tokens", (s.baseToken, s.quoteToken, s.baseTokenName, s.quoteTokenName) == (Tokens[b].a, Tokens[q].a, b, q), "%r" % (s,))
    for f, w in (("buyPriceLow", min(b0, b1)), ("buyPriceHigh", max(b0, b1)), ("buyBudget", ba), ("sellPriceLow", min(s0, s1)), ("sellPriceHigh", max(s0, s1)), ("sellBudget", sa)):
        j.eq("strategy " + f, getattr(s, f), w, 1e-7)
        j.true("strategy item", s[f] == getattr(s, f), f)
    j.true("strategy id", s["id"] == s.sid and s.encoded.sid == s.sid == s.encoded["id"], "%r" % (s,))
    for n in (0, 1):
        o, w = (s.encoded.order0, s.encoded.order1)[n], raw["encoded"]["order%d" % n]
        j.true("encoded order", all(getattr(o, f) == int(w[f]["hex"], 16) == o[f] for f in "yzAB") and o.token == raw["encoded"]["token%d" % n], "%r %r" % (o, w))
    before = copy.deepcopy((s.encoded.raw, s.encoded))
    x, e = call(lambda: json.loads(s.encoded.raw_json))
    if j.true("raw json", e is None, "%r" % (e,)):
        r = s.encoded.raw
        w = dict(id=str(s.sid), token0=raw["encoded"]["token0"], token1=raw["encoded"]["token1"], **{o: {f: str(int(raw["encoded"][o][f]["hex"], 16)) for f in "yzAB"} for o in ("order0", "order1")})
        j.true("raw json value", x == w, "%r, expected %r" % (x, w))
        j.true("raw json changes nothing", (s.encoded.raw, s.encoded) == before, "%r, before %r" % (s.encoded.raw, before[0]))


# ---------------------------------------------------------------- E04

PG = (1e-15, 3e-8, 0.0005, 0.5, 1, 1.5, 2, 1999.5, 2000, 1e6, 3.7e12, 3.3e25, 1.2345678e29)


def e04_items(th):
    for i in range(len(PG)):
        yield ("pair", i)
    for k in range(0, 100 if th else 64):
        yield ("int", k)
    yield ("yz",)
    for b in ("eth", "addr"):
        for d in range(8):
            yield ("import", b, d)


def e04(item, t):
    EO = CarbonSDK.EncodedOrder
    j = J(t, list(item))
    t.seen("states", repr(item))
    if item[0] == "import":
        return e_import(item, j, t)
    if item[0] == "int":
        k = item[1]
        vals = sorted({max(0, (1 << k) + d * (1 << max(k - s, 0)) + o) for d in (-1, 0, 1) for s in (1, 2, 20, 47, 48, 49) for o in (-1, 0, 1)} | ({*range(64)} if k == 0 else set()))
        prev = None
        for v in vals:
            t.add("numbers")
            j.true("bit length", EO.bitLength(v) == v.bit_length(), "%d: %r" % (v, EO.bitLength(v)))
            w = EO.encodeFloat(v)
            j.true("encoded", w == rfloat(v), "%d: %r" % (v, w))
            b = EO.decodeFloat(w)
            j.true("decoded", b == runfloat(w) and b <= v and v - b < max(1, v >> 46) and (v >= ONE or b == v), "%d -> %r -> %r" % (v, w, b))
            j.true("encoded again", EO.encodeFloat(b) == w, "%d" % v)
            j.eq("decode", EO.decode(w), b / ONE, 1e-15); j.eq("decode string", EO.decode(str(w)), b / ONE, 1e-15)
            if prev is not None:
                j.true("monotone", EO.decodeFloat(prev) <= b, "%d" % v)
            prev = w
        return
    if item[0] == "yz":
        for y, z in ((0, 0), (0, 5), (3, 5), (10 ** 18, 10 ** 18), (1, 10 ** 30)):
            for A in (0, 0.25, 1.5, 3.7e5):
                for B in (0, 1e-6, 1, 44.5):
                    o, e = call(EO.encode_yzAB, y, z, A, B, "T")
                    if not j.true("encode parameters", e is None, "%r %r %r %r: %r" % (y, z, A, B, e)):
                        continue
                    d = o.decoded
                    j.true("parameters", (d.y, d.z) == (y, z) and abs(d.A - A) <= 2 ** -46 * A + 2.0 ** -47 and abs(d.B - B) <= 2 ** -46 * B + 2.0 ** -47 and o.token == "T", "%r, expected %r" % (d, (y, z, A, B)))
                    j.true("parameters again", (EO.encode_yzAB(d.y, d.z, d.A, d.B).A, EO.encode_yzAB(d.y, d.z, d.A, d.B).B) == (o.A, o.B), "%r" % (o,))
        return
    lo = PG[item[1]]
    for hi in PG[item[1]:]:
        tol = lambda p: 1e-12 + 8 / (sqrt(p) * ONE)
        A, B = rrate(hi) - rrate(lo), rrate(lo)
        for y in (0, 1, 1000, 7 * 10 ** 18, 10 ** 27):
            o, e = call(EO.encode, y, hi, lo)
            if not j.true("encode", e is None, "%r %r %r: %r" % (y, hi, lo, e)):
                continue
            t.add("numbers")
            j.true("amounts", (o.y, o.z) == (y, y) and isinstance(o.y, int) and isinstance(o.z, int) and o.token == "TKN", "%r" % (o,))
            j.true("words", (o.A, o.B) == (rfloat(A), rfloat(B)), "%r, expected %r" % (o, (rfloat(A), rfloat(B))))
            j.eq("p_start", o.p_start, hi, tol(hi)); j.eq("p_end", o.p_end, lo, tol(lo))
            x, e = call(lambda: o.descr)
            if j.true("description", e is None, "%r" % (e,)):
                text_is(j, "description", x, ("selling", "TKN", "per", "TKN"), (1 / o.p_start, 1 / o.p_end))
            j.true("p_marg full", abs(o.p_marg - o.p_start) <= 1e-15 * hi, "%r" % (o.p_marg,))
            j.true("decoded order", (o.decoded.y, o.decoded.z, o.decoded.A, o.decoded.B) == (o.y, o.z, o.A_, o.B_) and o.A_ == runfloat(o.A) / ONE and o.B_ == runfloat(o.B) / ONE, "%r" % (o.decoded,))
            for f in (1, 2, 5.5):
                p, e = call(EO.encode, y, hi, lo, None, int(y * f) + 1, "X")
                j.true("given capacity", e is None and (p.y, p.z, p.A, p.B, p.token) == (y, int(y * f) + 1, o.A, o.B, "X"), "%r %r" % (p, e))
                if e is None and y == 0:
                    j.true("p_marg empty", p.p_marg == p.p_end, "%r" % (p.p_marg,))
            r, e = call(EO.encode, y, hi, lo, (lo + hi) / 2, y)
            j.true("marginal price and capacity", isinstance(e, ValueError), "%r" % (r,))
            r, e = call(EO.encode, y, hi, lo, hi)
            j.true("marginal price at start", e is None and (r.y, r.z) == (y, y), "%r %r" % (r, e))
            if hi > lo * 1.01 and y:
                for fr in (0.1, 0.5, 0.9):
                    pm = (sqrt(lo) + fr * (sqrt(hi) - sqrt(lo))) ** 2
                    r, e = call(EO.encode, y, hi, lo, pm)
                    if j.true("marginal price", e is None and r.y == y and r.z >= y, "%r %r" % (r, e)):
                        j.eq("capacity of marginal price", r.z, y / fr, 1e-6, 1)
        x = EO.from_sdk("tok", {"y": 1, "z": 2, "A": 3, "B": 4})
        j.true("from_sdk", (x.token, x.y, x.z, x.A, x.B, x["y"], x["B"]) == ("tok", 1, 2, 3, 4, 1, 4), "%r" % (x,))


def e_import(item, j, t):
    """strategies of the SDK become orders with the same prices, capacity and loading"""
    _, form, d = item
    for bt, qt in (("ETH", "USDC"), ("USDC", "ETH"), ("LINK", "WBTC"), ("???", "USDC"), ("ETH", "???")):
        for fl0 in (0, 0.25, 1, None):
            for fl1 in (0, 0.6, 1, None):
                for sw in (False, True):
                    ad = lambda n: ("0x" + "9e" * 20 if form == "addr" else "NOTOKEN") if n == "???" else (Tokens[n].a if form == "addr" else n)
                    B, Q = ad(bt), ad(qt)
                    eB, eQ = (cksum(B), cksum(Q)) if form == "addr" and d & 1 else (B, Q)
                    if form == "addr" and d & 2:
                        B, Q = cksum(B), cksum(Q)
                    cap0, cap1 = (10 ** 18, 0)[fl0 is None], (2 * 10 ** 9, 0)[fl1 is None]
                    o0 = {"y": bn(int(cap0 * (fl0 or 0))), "z": bn(cap0), "A": bn(5), "B": bn(9)}
                    o1 = {"y": bn(int(cap1 * (fl1 or 0))), "z": bn(cap1), "A": bn(6), "B": bn(8)}
                    sb, bb = (0 if fl0 is None else 1.5), (0 if fl1 is None else 800)
                    enc_ = {"id": bn(83), "token0": eB, "token1": eQ, "order0": o0, "order1": o1}
                    if sw:
                        enc_ = {"id": bn(83), "token0": eQ, "token1": eB, "order0": o1, "order1": o0}
                    raw = {"id": bn(83), "baseToken": B, "quoteToken": Q, "buyPriceLow": "150", "buyPriceHigh": "160.00000000001", "buyBudget": str(bb),
                           "sellPriceLow": "200", "sellPriceHigh": "260", "sellBudget": str(sb), "encoded": enc_}
                    keep = copy.deepcopy(raw)
                    nsd = (None, 6)[d // 4]
                    r, e = call(CarbonOrderUI.from_SDK, raw, nsd)
                    t.add("imports")
                    tag = "%s %s %r %r %r" % (bt, qt, fl0, fl1, sw)
                    if not j.true("import", e is None, "%s: %r" % (tag, e)):
                        continue
                    j.true("import changes nothing", raw == keep, tag)
                    b, s = r
                    tb, tq = ("TKNB" if bt == "???" else bt), ("TKNQ" if qt == "???" else qt)
                    j.true("import tokens", (b.tkn, s.tkn, b.pair.tknb, b.pair.tknq, s.pair.slashpair) == (tq, tb, tb, tq, "%s/%s" % (tb, tq)), "%s: %r" % (tag, r))
                    j.true("import links", b.linked is s and s.linked is b and (b.id, s.id) == ("83-b", "83-s"), tag)
                    for o, vals in ((b, (160.00000000001, 150, bb, bb * (fl1 or 0))), (s, (200, 260, sb, sb * (fl0 or 0)))):
                        for f, w in zip(("pa", "pb", "yint", "y"), vals):
                            j.eq("import " + f, getattr(o, f), w, 1e-5 if nsd else 1e-9, 1e-9, tag)
    raw = {**raw, "baseToken": Tokens.DAI.a if form == "addr" else "DAI"}
    r, e = call(CarbonOrderUI.from_SDK, raw)
    j.true("other tokens", isinstance(e, ValueError), "%r" % (r,))


FN = {"E%02d" % i: globals()["e%02d" % i] for i in range(1, 5)}
ITEMS = {"E%02d" % i: globals()["e%02d_items" % i] for i in range(1, 5)}
BOUNDS = {
    "E01": "call histories over 12 kinds of calls, collections and failures up to depth 5 (quick) or 6 (thorough), all endpoints in 5 server states, 3x3 defaults for every URL form",
    "E02": "containers of up to 3 (quick) or 4 (thorough) tokens with clashing tickers and addresses, 7 decimals, amounts around 0, 10^d and binary fractions",
    "E03": "7 pairs in 2 forms, both sides, by source and target, 3 or 4 amounts; 13,800 strategies with ranges in every order and position; strategy histories up to depth 4 (quick) or 5 (thorough) over 7 operations",
    "E04": "integers around every power of two, order grids over prices and liquidity, strategies with 5 token pairs, 4x4 fill levels, both orders of tokens"}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=max(tally.n.get("histories", 0), len(tally.sets.get("states", ())) or len(it)), transitions=tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = case["case"]
    if pid == "E01" and c[0] == "hist" and len(c) == 3:
        return e_hist(J(t, c), t, c[1], [HOPS[i] for i in c[2]])
    if pid == "E03" and c[0] == "strat" and len(c) == 2:
        return e_strat(J(t, c), tuple(c[1]), t)
    FN[pid](_tup(c), t)
