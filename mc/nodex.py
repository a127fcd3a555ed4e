"""The node server of the SDK (resources/sdk/server), run unchanged under a controlled scheduler (mc/node/driver.mjs):
every request, completion of an SDK call, timer and clock step is a step of the explored history."""
import atexit
import itertools
import json
import os
import select
import subprocess

from mc import core, encx
from mc.core import call
from mc.oui import J

DIR = os.path.join(core.REPO, "resources", "sdk", "server")
TOK = {"token": "carbontoken"}
A, B, C_ = ("0x" + c * 40 for c in "abc")
BAD = "0x123"


def cs(a):
    return "0x" + "".join(c.upper() if i % 3 == 0 else c for i, c in enumerate(a[2:].lower()))


class Node:
    _one = {}

    @classmethod
    def get(cls):
        n = cls._one.get(os.getpid())
        if n is None:
            n = cls._one[os.getpid()] = cls()
        return n

    def __init__(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith("SDKSERVER_")}
        self.p = subprocess.Popen(["node", os.path.join(core.VERIF, "mc", "node", "driver.mjs"), DIR], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, universal_newlines=True)
        self.n = 0
        atexit.register(self.p.kill)

    def run(self, steps):
        self.p.stdin.write(json.dumps(steps) + "\n")
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], 60)[0]:
            self.p.kill(); self.p.wait()
            Node._one.pop(os.getpid(), None)
            raise RuntimeError("the server does not come to rest: %s" % (steps[-1],))
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the driver of the node server ended")
        out = json.loads(line)
        if isinstance(out, dict):
            raise RuntimeError(out["error"])
        return out

    @classmethod
    def fresh(cls):
        """loaded modules stay in memory: start a new process from time to time"""
        n = cls.get()
        n.n += 1
        if n.n > 4000:
            n.p.kill(); n.p.wait()
            del cls._one[os.getpid()]
            n = cls.get()
        return n


def req(method, path, body=None, headers=TOK):
    return ["req", method, path, headers] + ([] if body is None else [body if isinstance(body, str) else json.dumps(body)])


def reply(events, n):
    """(status, kind, text) of the replies to request n"""
    return [(e[2], e[3], e[4]) for e in events if e[0] == "resp" and e[1] == n]


def js(r):
    try:
        d = json.loads(r[2])
        return d if isinstance(d, dict) else {"not an object": d}
    except Exception:
        return {"not json": r}


def strip(a):
    a = list(a)
    while a and a[-1] == "<undefined>":
        a.pop()
    return a


# ---------------------------------------------------------------- N01: histories

# kind -> (function, body of request i, [(sdk call, args)], timers, value of parts -> result)
KINDS = {
    "rate": ("get_min_rate_by_pair", lambda i: dict(sourceToken=A, targetToken=B, i=i), lambda i: [("getMinRateByPair", [cs(A), cs(B)])], 0),
    "data": ("get_match_params", lambda i: dict(sourceToken=B, targetToken=A, amount=str(i), tradeByTargetAmount=bool(i % 2)),
             lambda i: [("getMatchParams", [cs(B), cs(A), str(i), bool(i % 2)])], 0),
    "list": ("get_rate_liquidity_depth_by_pair", lambda i: dict(sourceToken=A, targetToken=C_, rate=[str(i), str(i + 10)]),
             lambda i: [("getRateLiquidityDepthByPair", [cs(A), cs(C_), str(i)]), ("getRateLiquidityDepthByPair", [cs(A), cs(C_), str(i + 10)])], 0),
    "plus": ("plus", lambda i: dict(a=i, b=3), lambda i: [], 1),
    "qmul": ("qmul", lambda i: dict(a=i + 1, b=3), lambda i: [], 0),
    "none": ("no_such_function", lambda i: dict(a=i), None, 0),
    "bad": ("get_max_rate_by_pair", lambda i: dict(sourceToken=A, targetToken=BAD), None, 0),
}
CLOCKS = {"frozen": 0, "advancing": 1, "backwards": -1}
REQS = [("a", k) for k in ("rate", "list", "plus", "qmul", "none", "bad")] + [("s", k) for k in ("rate", "list", "bad")]


class M:
    """model: what was asked, what is outstanding"""

    def __init__(self):
        self.reqs = []          # dict(mode, kind, i, parts, polled)
        self.calls = []         # (request, part) by call index
        self.timers = []

    def copy(self):
        m = M()
        m.reqs = [dict(r, parts=list(r["parts"])) for r in self.reqs]
        m.calls, m.timers = list(self.calls), list(self.timers)
        return m

    def ask(self, mode, kind):
        i = len(self.reqs)
        _, _, calls, timers = KINDS[kind]
        parts = []
        for _ in (calls(i) if calls else ()):
            self.calls.append((i, len(parts))); parts.append(None)
        for _ in range(timers):
            self.timers.append((i, len(parts))); parts.append(None)
        self.reqs.append(dict(mode=mode, kind=kind, i=i, parts=parts))

    def open(self):
        for k, (r, p) in enumerate(self.calls):
            if self.reqs[r]["parts"][p] is None:
                yield ("ok", k)
                yield ("err", k)
        for k, (r, p) in enumerate(self.timers):
            if self.reqs[r]["parts"][p] is None:
                yield ("timer", k)

    def do(self, a):
        if a[0] in "as":
            self.ask(*a)
        elif a[0] in ("ok", "err"):
            r, p = self.calls[a[1]]
            self.reqs[r]["parts"][p] = (a[0], "%s of call %d" % (a[0], a[1]))
        elif a[0] == "timer":
            r, p = self.timers[a[1]]
            self.reqs[r]["parts"][p] = ("ok", None)


def status(r):
    """failed | pending | done | error | partly (an error, others pending)"""
    if r["kind"] in ("none", "bad"):
        return "failed"
    err = any(p and p[0] == "err" for p in r["parts"])
    if any(p is None for p in r["parts"]):
        return "partly" if err else "pending"
    return "error" if err else "done"


def value(r):
    i = r["i"]
    if r["kind"] == "plus":
        return {"func": "plus", "a": i, "b": 3, "result": i + 3}
    if r["kind"] == "qmul":
        return {"func": "qmul", "a": i + 1, "b": 3, "result": 3 * i + 3}
    v = [p[1] for p in r["parts"]]
    return v if r["kind"] == "list" else v[0]


def histories(m, depth, maxreq, prefix=()):
    if depth == 0:
        yield prefix
        return
    acts = list(m.open())
    if len(m.reqs) < maxreq:
        acts += REQS
    # a poll changes nothing in the model; two polls in a row of one request are explored, longer runs are not
    acts += [("poll", i) for i, r in enumerate(m.reqs) if r["mode"] == "a" and prefix[-2:] != (("poll", i),) * 2]
    for a in acts:
        n = m.copy()
        n.do(a)
        yield from histories(n, depth - 1, maxreq, prefix + (a,))


def n01_items(th):
    for clock in CLOCKS:
        d = (6 if th else 5) - (clock != "frozen")
        for first in REQS:
            for second in histories(_after(first), 1, 3):
                yield (clock, (first,) + second, d)
    for modes in ("aa", "as", "sa", "ss"):
        for ends in itertools.product(ENDS, repeat=2):
            for order in ((0, 1), (1, 0)):
                yield ("ends", modes, ends, order)


# what a call can end with: values that look like none, and errors without a message
ENDS = (("ok", "v"), ("ok", 0), ("ok", False), ("ok", None), ("ok", ""), ("ok", []), ("ok", {}), ("err", ""), ("err", "e"))


def n01_ends(item, t):
    """two calls in flight with every pair of outcomes, in either order, polled at every moment"""
    _, modes, ends, order = item
    j = J(t, list(item))
    t.seen("states", repr(item))
    s = S(j, t)
    t.add("histories")
    calls, nos, rids, got = [], [], [], [None, None]
    for i in (0, 1):
        f = ("get_min_rate_by_pair", "get_max_rate_by_pair")[i]
        r, c, n = s.ask("POST", "/api/%scall/%s" % ("as" if modes[i] == "a" else "s", f), args_of(f))
        if not j.true("call of the SDK", len(c) == 1, s.tag):
            return
        calls.append(c[0][0]); nos.append(n)
        rids.append(js(r).get("reqid") if r else None)
        j.true("accepted call", (modes[i] == "a") == (rids[i] is not None), s.tag)
    done = set()
    for step in (None,) + order + (None,):
        ev = []
        if step is not None:
            ev = s.fin(calls[step], **{ends[step][0]: ends[step][1]})
            done.add(step)
        for i in (0, 1):
            g = s.result(ev, nos[i], modes[i], rids[i])
            if modes[i] == "s":
                j.true("one reply", g is None or got[i] is None, s.tag)
                g = got[i] = g or got[i]
            if i not in done:
                j.true("result before it is there", g is None, "%s %s" % (g, s.tag))
                continue
            k, v = ends[i]
            if k == "err":
                j.true("error of the call", g is not None and g[0] == "error" and (not v or v in str(g[1])), "%s %s" % (g, s.tag))
            else:
                j.true("result", g == ("ok", v) and type(g[1]) is type(v), "%s, expected %r %s" % (g, v, s.tag))
    s.alive()


def _after(*acts):
    m = M()
    for a in acts:
        m.do(a)
    return m


def n01(item, t):
    if item[0] == "ends":
        return n01_ends(item, t)
    clock, first, depth = item
    for rest in histories(_after(*first), depth - len(first), 3):
        h = first + rest
        t.add("histories")
        core.arm()
        n_hist(J(t, [clock, h]), t, clock, h)


def n_hist(j, t, clock, h):
    node = Node.fresh()
    d = CLOCKS[clock]
    m = M()
    for a in h:
        m.do(a)
    last = [("poll", r["i"]) for r in m.reqs if r["mode"] == "a"] * 2 + [("pollx", x) for x in ("1", "toString", "__proto__", "-1")]
    steps = [["new", {"mnemonic": "w"}]]
    asked, nreq = [], 0
    for k, a in enumerate(h + tuple(last)):
        if d:
            steps.append(["tick", d])
        if a[0] in "as":
            f, body, _, _ = KINDS[a[1]]
            steps.append(req("POST", "/api/%scall/%s" % ("as" if a[0] == "a" else "s", f), body(len(asked))))
            asked.append(nreq); nreq += 1
        elif a[0] in ("ok", "err"):
            steps.append(["fin", a[1], {a[0]: "%s of call %d" % (a[0], a[1])}])
        elif a[0] == "timer":
            steps.append(["timer", a[1]])
        elif a[0] == "poll":
            steps.append(req("GET", "/api/result/{reqid:%d}" % asked[a[1]])); nreq += 1
        else:
            steps.append(req("GET", "/api/result/" + a[1])); nreq += 1
    out = node.run(steps)
    out = [o for o, s in zip(out, steps) if s[0] != "tick"]
    m = M()
    ids, answered, nreq = {}, {}, 0
    for k, a in enumerate(h + tuple(last)):
        ev = out[k + 1]
        t.add("transitions")
        tag = "%s: step %d %s %s" % (clock, k, a, ev)
        before = len(m.calls)
        m.do(a)
        crash = [e for e in ev if e[0] == "crash"]
        if not j.true("server terminates", not crash, tag):
            return
        calls = [(e[2], strip(e[3])) for e in ev if e[0] == "call"]
        me = None
        if a[0] in "as":
            r = m.reqs[-1]
            r["n"] = me = nreq; nreq += 1
            want = KINDS[r["kind"]][2](r["i"]) if KINDS[r["kind"]][2] else []
            if not j.true("call of the SDK", calls == [(n, x) for n, x in want] and [e[1] for e in ev if e[0] == "call"] == list(range(before, len(m.calls))), tag):
                return
            got = reply(ev, me)
            st = status(r)
            if a[0] == "a":
                g = js(got[0]) if len(got) == 1 else {}
                if st == "failed":
                    j.true("refused call", g.get("success") is False and isinstance(g.get("error"), str) and g["error"], tag)
                elif j.true("accepted call", g.get("success") is True and type(g.get("reqid")) in (int, str), tag):
                    j.true("request id is unique", g["reqid"] not in ids.values(), tag)
                    ids[r["i"]] = g["reqid"]
            elif got:
                answered[r["i"]] = 1
                sync_reply(j, r, st, got, tag)
            else:
                j.true("synchronous reply", st == "pending", tag)
        else:
            j.true("no further call", not calls, tag)
            if a[0] in ("poll", "pollx"):
                me = nreq; nreq += 1
                got = reply(ev, me)
                if not j.true("one reply", len(got) == 1, tag):
                    return
                g = js(got[0])
                st = "unknown" if a[0] == "pollx" else status(m.reqs[a[1]])
                if st in ("failed", "unknown"):
                    j.true("unknown request id", g.get("success") is False and g.get("awaiting") is not True, tag)
                else:
                    rid = ids.get(a[1])
                    if st == "done":
                        j.true("result", g.get("success") is True and g.get("data") == {"reqid": rid, "result": value(m.reqs[a[1]])}, tag)
                    elif st == "pending":
                        j.true("result before it is there", g.get("success") is False and g.get("awaiting") is True, tag)
                    else:
                        e = g.get("error") if g.get("success") is False else ((g.get("data") or {}).get("result") or {}).get("error") if isinstance((g.get("data") or {}).get("result"), dict) else None
                        err = [p[1] for p in m.reqs[a[1]]["parts"] if p and p[0] == "err"]
                        wait = g.get("success") is False and g.get("awaiting") is True
                        j.true("error of the call", (wait and st == "partly") or (not wait and isinstance(e, str) and any(x in e for x in err)), tag)
        # replies to synchronous calls come when they are complete
        for r in m.reqs:
            if r["mode"] == "s" and r.get("n") != me:
                got = reply(ev, r["n"])
                st = status(r)
                if got:
                    j.true("one reply", r["i"] not in answered, tag)
                    answered[r["i"]] = 1
                    sync_reply(j, r, st, got, tag)
                else:
                    j.true("reply to a synchronous call", r["i"] in answered or st in ("pending", "partly"), "request %d: %s" % (r["i"], tag))
        other = [e for e in ev if e[0] == "resp" and e[1] != me and not any(r["mode"] == "s" and r.get("n") == e[1] for r in m.reqs)]
        j.true("unexpected reply", not other, tag)


def sync_reply(j, r, st, got, tag):
    g = js(got[0])
    if not j.true("one reply", len(got) == 1 and got[0][0] == 200, tag):
        return
    if st == "done":
        j.true("synchronous result", g == {"success": True, "data": value(r)}, tag)
    else:
        err = [p[1] for p in r["parts"] if p and p[0] == "err"]
        j.true("synchronous error", st != "pending" and g.get("success") is False and isinstance(g.get("error"), str) and (not err or any(x in g["error"] for x in err)), tag)


# ---------------------------------------------------------------- N02: requests

# function -> (SDK method, parameters; those in upper case are addresses)
FUNCS = {
    "get_liquidity_by_pair": ("getLiquidityByPair", ("sourceToken", "targetToken")),
    "get_min_rate_by_pair": ("getMinRateByPair", ("sourceToken", "targetToken")),
    "get_max_rate_by_pair": ("getMaxRateByPair", ("sourceToken", "targetToken")),
    "get_user_strategies": ("getUserStrategies", ("user",)),
    "get_match_params": ("getMatchParams", ("sourceToken", "targetToken", "amount", "tradeByTargetAmount")),
    "get_trade_data": ("getTradeData", ("sourceToken", "targetToken", "amount", "tradeByTargetAmount")),
    "get_trade_data_from_actions": ("getTradeDataFromActions", ("sourceToken", "targetToken", "tradeByTargetAmount", "actionsWei")),
    "compose_trade_by_target_transaction": ("composeTradeByTargetTransaction", ("sourceToken", "targetToken", "tradeActions", "deadline", "maxInput", "overrides")),
    "compose_trade_by_source_transaction": ("composeTradeBySourceTransaction", ("sourceToken", "targetToken", "tradeActions", "deadline", "minReturn", "overrides")),
    "create_buy_sell_strategy": ("createBuySellStrategy", ("baseToken", "quoteToken", "buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget", "overrides")),
    "delete_strategy": ("deleteStrategy", ("strategyId", "overrides")),
    "get_rate_liquidity_depth_by_pair": ("getRateLiquidityDepthByPair", ("sourceToken", "targetToken", "rate")),
}
ADDR = ("sourceToken", "targetToken", "baseToken", "quoteToken")
OTHERS = sorted({n for f in FUNCS for n in FUNCS[f][1]})
VALUES = ["1.25", "", 0, 17, False, True, None, [], {}, ["a", {"b": [1, None]}], {"x": {"y": "z"}, "n": 1e30, "big": {"type": "BigNumber", "hex": "0x01"}}]


def args_of(f, v=0):
    """distinct values for every parameter"""
    p = {}
    for k, name in enumerate(FUNCS[f][1]):
        if name in ADDR:
            p[name] = (A, B, C_)[(k + v) % 3]
        elif name == "tradeByTargetAmount":
            p[name] = bool(v % 2)
        elif name in ("actionsWei", "tradeActions"):
            p[name] = [{"strategyId": str(2 ** 128 + k), "amount": str(v)}] * (v % 3)
        elif name == "overrides":
            p[name] = {"gasLimit": 10 + v}
        else:
            p[name] = ("%d.%d" % (k + 1, v)) if v != 2 else "0"
    return p


def want_args(f, p):
    return strip([cs(p[n]) if n in ADDR else p.get(n, "<undefined>") for n in FUNCS[f][1]])


def n02_items(th):
    for f in FUNCS:
        for mode in ("s", "a"):
            yield ("call", f, mode)
            yield ("values", f, mode)
            yield ("addresses", f, mode)
    for mode in ("s", "a"):
        yield ("bulk", mode, 4 if th else 3)
        yield ("has", mode)
        yield ("arith", mode)
    yield ("auth",)
    yield ("wallet",)
    yield ("submit",)
    for f in ("decimals", "symbol", "balance_of"):
        yield ("erc20", f, 4 if th else 3)
    yield ("erc20err",)
    yield ("routes",)


def start(**o):
    o.setdefault("mnemonic", "0xwallet")
    return ["new", o]


class S:
    """a running server: steps, with the standing checks (it never terminates, one reply for each request)"""

    def __init__(self, j, t, **o):
        self.j, self.t = j, t
        self.node = Node.fresh()
        self.n = 0
        self.open = set()
        self.ev0 = self.node.run([start(**o)])[0]
        self.trace = ["new %s" % (o,)]
        j.true("server starts", not any(e[0] == "crash" for e in self.ev0) and any(e[0] == "datasync" for e in self.ev0), "%s %s" % (o, self.ev0))
        self.port = next((e[1] for e in self.ev0 if e[0] == "listening"), None)

    def step(self, s):
        self.t.add("transitions")
        ev = self.node.run([s])[0]
        self.trace = self.trace[-6:] + ["%s -> %s" % (s, ev)]
        self.j.true("server terminates", not any(e[0] == "crash" for e in ev), self.tag)
        for e in ev:
            if e[0] == "resp":
                self.j.true("one reply", e[1] in self.open, self.tag)
                self.open.discard(e[1])
        return ev

    @property
    def tag(self):
        return " | ".join(self.trace)

    def ask(self, method, path, body=None, headers=TOK):
        """(reply or None, SDK calls, number of the request)"""
        n = self.n
        self.n += 1
        self.open.add(n)
        ev = self.step(req(method, path, body, headers))
        r = reply(ev, n)
        return (r[0] if r else None), [(e[1], e[2], strip(e[3])) for e in ev if e[0] == "call"], n

    def fin(self, k, **how):
        return self.step(["fin", k, how])

    def result(self, ev, n, mode, rid):
        """the answer to a call: ('ok', value) | ('error', message) | None while there is none"""
        if mode == "s":
            r = reply(ev, n)
            if not r:
                return None
            g = js(r[0])
            return ("ok", g.get("data")) if g.get("success") is True else ("error", g.get("error"))
        r, c, _ = self.ask("GET", "/api/result/%s" % rid)
        g = js(r) if r else {}
        if g.get("success") is False:
            return None if g.get("awaiting") is True else ("error", g.get("error"))
        v = (g.get("data") or {}).get("result")
        if isinstance(v, dict) and set(v) == {"error"}:
            return ("error", v["error"])
        return ("ok", v)

    def alive(self):
        r, c, _ = self.ask("GET", "/", headers={})
        self.j.true("server answers", r is not None and r[0] == 200 and "version" in js(r) and not c, self.tag)


def do_call(s, j, f, mode, body, want, outcome):
    """one call with SDK calls `want`, finished in the order and way of `outcome`"""
    r, calls, n = s.ask("POST", "/api/%scall/%s" % ("as" if mode == "a" else "s", f), body)
    if not j.true("call of the SDK", [c[1:] for c in calls] == want, "%s, expected %s" % (s.tag, want)):
        return None
    rid = None
    if mode == "a":
        g = js(r) if r else {}
        if not j.true("accepted call", g.get("success") is True and "reqid" in g, s.tag):
            return None
        rid = g["reqid"]
    ev, got = [], None
    if mode == "s" and r is not None:
        got = s.result([["resp", n] + list(r)], n, mode, rid)
    for i, how in outcome:
        if got is None and mode == "a":
            j.true("result before it is there", s.result([], n, mode, rid) is None, s.tag)
        ev += s.fin(calls[i][0], **how)
    return got or s.result(ev, n, mode, rid) or ("no answer", None)


def n02(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    kind = item[0]
    if kind == "call":
        _, f, mode = item
        s = S(j, t)
        for v in range(6):
            p = args_of(f, v)
            w = [(FUNCS[f][0], want_args(f, p))]
            g = do_call(s, j, f, mode, p, w, [(0, {"ok": "v%d" % v})])
            j.true("result", g == ("ok", "v%d" % v), "%s %s" % (g, s.tag))
            g = do_call(s, j, f, mode, p, w, [(0, {"err": "no %d" % v})])
            j.true("error", g and g[0] == "error" and isinstance(g[1], str) and "no %d" % v in g[1], "%s %s" % (g, s.tag))
            s.alive()
        g = do_call(s, j, f, mode, p, w, [(0, {"err": ""})])
        j.true("error without a message", g and g[0] == "error", "%s %s" % (g, s.tag))
        # every parameter with values that look like none, and next to the parameters of other functions
        for name in FUNCS[f][1]:
            for x in (0, "", False, None, "0") if name not in ADDR else ():
                p = dict({n: "other " + n for n in OTHERS}, **args_of(f, 1))
                p[name] = x
                g = do_call(s, j, f, mode, p, [(FUNCS[f][0], want_args(f, p))], [(0, {"ok": "y"})])
                j.true("result", g == ("ok", "y"), "%s %s" % (g, s.tag))
        # parameters that may be left out
        for o in ("overrides",):
            if o in FUNCS[f][1]:
                p = args_of(f); del p[o]
                g = do_call(s, j, f, mode, p, [(FUNCS[f][0], want_args(f, p))], [(0, {"ok": 1})])
                j.true("result", g == ("ok", 1), s.tag)
    elif kind == "values":
        _, f, mode = item
        s = S(j, t)
        for v in VALUES:
            p = args_of(f, 1)
            g = do_call(s, j, f, mode, p, [(FUNCS[f][0], want_args(f, p))], [(0, {"ok": v})])
            j.true("value", g == ("ok", v) and type(g[1]) is type(v), "%r: %s %s" % (v, g, s.tag))
    elif kind == "addresses":
        _, f, mode = item
        names = [n for n in FUNCS[f][1] if n in ADDR]
        s = S(j, t)
        for combo in itertools.product((A, A.upper().replace("0X", "0x"), cs(B), BAD, "", None, 5, "<missing>"), repeat=len(names)):
            p = args_of(f)
            for n, x in zip(names, combo):
                p[n] = x
                if x == "<missing>":
                    del p[n]
            bad = any(not (isinstance(x, str) and len(x) == 42) for x in combo)
            if bad:
                r, calls, n = s.ask("POST", "/api/%scall/%s" % ("as" if mode == "a" else "s", f), p)
                g = js(r) if r else {}
                j.true("bad address", not calls and g.get("success") is False and isinstance(g.get("error"), str) and "invalid address" in g["error"], s.tag)
            elif names:
                g = do_call(s, j, f, mode, p, [(FUNCS[f][0], want_args(f, p))], [(0, {"ok": "x"})])
                j.true("result", g == ("ok", "x"), s.tag)
        s.alive()
    elif kind == "bulk":
        _, mode, top = item
        f = "get_rate_liquidity_depth_by_pair"
        s = S(j, t)
        for n in range(1, top + 1):
            for order in itertools.permutations(range(n)):
                for errs in itertools.product((0, 1), repeat=n):
                    core.arm()
                    p = dict(args_of(f), rate=["%d.5" % i for i in range(n)])
                    w = [(FUNCS[f][0], [cs(p["sourceToken"]), cs(p["targetToken"]), x]) for x in p["rate"]]
                    out = [(i, {"err": "no %d" % i} if errs[i] else {"ok": "depth %d" % i}) for i in order]
                    r, calls, q = s.ask("POST", "/api/%scall/%s" % ("as" if mode == "a" else "s", f), p)
                    if not j.true("calls of the SDK", [c[1:] for c in calls] == w, "%s, expected %s" % (s.tag, w)):
                        return
                    rid = js(r).get("reqid") if r and mode == "a" else None
                    got = None
                    for k, (i, how) in enumerate(out):
                        ev = s.fin(calls[i][0], **how)
                        g = s.result(ev, q, mode, rid)
                        if mode == "s":
                            j.true("one answer", not (got and g), s.tag)
                            got = got or g
                        else:
                            got = g
                        e = any(errs[x[0]] for x in out[:k + 1])
                        j.true("complete before answered", got is None or e or k == n - 1, "%s %s" % (got, s.tag))
                    w = ("ok", ["depth %d" % i for i in range(n)])
                    if any(errs):
                        j.true("bulk error", got and got[0] == "error" and any("no %d" % i in got[1] for i in range(n) if errs[i]), "%s %s" % (got, s.tag))
                    else:
                        j.true("bulk result", got == w, "%s, expected %s: %s" % (got, w, s.tag))
        for rates in ([str(i) for i in range(7)], ["1", "2", "1"], ["5"] * 4, [0, "", None, 1.5]):
            for back in (False, True):
                p = dict(args_of(f), rate=rates)
                w = [(FUNCS[f][0], strip([cs(p["sourceToken"]), cs(p["targetToken"]), x])) for x in rates]
                g = do_call(s, j, f, mode, p, w, [(i, {"ok": "d%d" % i}) for i in sorted(range(len(rates)), reverse=back)])
                j.true("bulk result", g == ("ok", ["d%d" % i for i in range(len(rates))]), "%s: %s" % (g, s.tag))
        g = do_call(s, j, f, mode, dict(args_of(f), rate=[]), [], [])
        j.true("empty bulk", g == ("ok", []), "%s %s" % (g, s.tag))
        s.alive()
    elif kind == "has":
        mode = item[1]
        for has in ((), ((A, B),), ((B, A), (A, C_))):
            s = S(j, t, sync={"has": [",".join(x) for x in has], "pairs": [[A, B], [B, C_]]})
            pairs = list(itertools.permutations((A, B, C_), 2))
            for x in pairs:
                g = do_call(s, j, "has_liquidity_by_pair", mode, dict(sourceToken=x[0], targetToken=x[1]), [("hasLiquidityByPair", [cs(x[0]), cs(x[1])])], [])
                j.true("has liquidity", g == ("ok", x in has), "%s %s" % (g, s.tag))
            for n in range(0, 4):
                for l in itertools.permutations(pairs, n):
                    core.arm()
                    g = do_call(s, j, "has_liquidity_by_pair", mode, dict(pairList=[dict(sourceToken=x[0], targetToken=x[1]) for x in l]), [("hasLiquidityByPair", [cs(x[0]), cs(x[1])]) for x in l], [])
                    j.true("has liquidity of many", g == ("ok", [x in has for x in l]), "%s %s" % (g, s.tag))
            g = do_call(s, j, "pairs", mode, {}, [("pairs", [])], [])
            j.true("pairs", g == ("ok", [[A, B], [B, C_]]), "%s %s" % (g, s.tag))
            s.alive()
        s = S(j, t, sync={"throws": ["hasLiquidityByPair"]})
        r, calls, n = s.ask("POST", "/api/%scall/has_liquidity_by_pair" % ("as" if mode == "a" else "s"), dict(sourceToken=A, targetToken=B))
        g = js(r) if r else {}
        j.true("error of the SDK", g.get("success") is False and isinstance(g.get("error"), str) and "sdk says no" in g["error"], s.tag)
        s.alive()
    elif kind == "arith":
        mode = item[1]
        s = S(j, t)
        for a, b in itertools.product((0, 1, -2.5, 1e20), repeat=2):
            for f, v in (("qplus", a + b), ("qmul", a * b)):
                g = do_call(s, j, f, mode, dict(a=a, b=b), [], [])
                j.true("arithmetic", g == ("ok", {"func": f, "a": a, "b": b, "result": v}), "%s %s" % (g, s.tag))
        for f in ("update_strategy", "get_match_actions"):
            r, calls, n = s.ask("POST", "/api/%scall/%s" % ("as" if mode == "a" else "s", f), dict(strategyId="1"))
            j.true("not implemented", r is not None and not calls, s.tag)
        for f in ("start_data_sync", "unknown", "getMinRateByPair", "constructor", "get_min_rate_by_pair2"):
            r, calls, n = s.ask("POST", "/api/%scall/%s" % ("as" if mode == "a" else "s", f), dict(sourceToken=A, targetToken=B))
            g = js(r) if r else {}
            j.true("unknown function", not calls and g.get("success") is False and isinstance(g.get("error"), str) and "unknown" in g["error"], s.tag)
        s.alive()
    elif kind == "auth":
        for argv, token, port in (([], "carbontoken", 3118), (["4000"], "carbontoken", 4000), (["4001", "hush"], "hush", 4001)):
            s = S(j, t, argv=argv)
            j.true("port", s.port == port, "%r %s" % (s.port, argv))
            ok = {"token": token}
            r, c, _ = s.ask("POST", "/api/ascall/get_min_rate_by_pair", dict(sourceToken=A, targetToken=B), ok)
            g = js(r) if r else {}
            if not j.true("accepted call", g.get("success") is True and len(c) == 1, s.tag):
                continue
            rid = g["reqid"]
            s.fin(c[0][0], ok="secret")
            for h in ({}, {"token": ""}, {"token": "carbontoken" if token != "carbontoken" else "hush"}, {"token": token.upper()}, {"token": token + "x"}, {"token": token[:-1]}, {"authorization": token}, {"token": "undefined"}):
                for m, path, body in [("POST", "/api/%scall/%s" % (x, f), dict(args_of(f), a=1, b=2)) for x in ("s", "as") for f in FUNCS] + [
                        ("POST", "/api/scall/has_liquidity_by_pair", dict(sourceToken=A, targetToken=B)), ("POST", "/api/scall/pairs", {}), ("POST", "/api/scall/qmul", dict(a=1, b=2)), ("POST", "/api/scall/none", {}),
                        ("GET", "/api/result/%s" % rid, None), ("GET", "/api/result/1", None), ("GET", "/api/addr", None), ("POST", "/api/signsubmittx", {"tx": {"a": 1}, "sign": False}),
                        ("POST", "/api/erc20/decimals", {"tokens": [A]}), ("POST", "/api/erc20/balance_of", {"tokens": [A], "address": B}), ("POST", "/api/erc20/hello", {"tokens": [A]})]:
                    r, c, _ = s.ask(m, path, body, h)
                    j.true("unauthorized", r is not None and r[0] == 401 and not c and "secret" not in r[2] and "0xwallet" not in r[2], s.tag)
            r, c, _ = s.ask("GET", "/api/result/%s" % rid, None, ok)
            j.true("result", js(r).get("data") == {"reqid": rid, "result": "secret"}, s.tag)
            s.alive()
    elif kind == "wallet":
        for o in (dict(mnemonic=None), dict(mnemonic="0xa"), dict(mnemonic="0xb", ethers6=True)):
            s = S(j, t, **o)
            j.true("server listens", s.port == 3118, s.tag)
            r, c, _ = s.ask("GET", "/api/addr")
            g = js(r) if r else {}
            if o["mnemonic"]:
                j.true("address of the wallet", g == {"success": True, "data": o["mnemonic"]} and not c, s.tag)
            else:
                j.true("no wallet", g.get("success") is False and isinstance(g.get("error"), str) and not c, s.tag)
            for f in FUNCS:
                for mode in "sa":
                    p = args_of(f)
                    g = do_call(s, j, f, mode, p, [(FUNCS[f][0], want_args(f, p))], [(0, {"ok": f})])
                    j.true("result", g == ("ok", f), s.tag)
            for sign in (True, False):
                r, c, n = s.ask("POST", "/api/signsubmittx", {"tx": {"a": 1}, "sign": sign})
                if o["mnemonic"]:
                    j.true("submitted", r is None and [x[1:] for x in c] == [("sendTransaction", [o["mnemonic"], {"a": 1}])], s.tag)
                else:
                    g = js(r) if r else {}
                    j.true("nothing to sign with", g.get("success") is False and isinstance(g.get("error"), str) and not c, s.tag)
            s.alive()
    elif kind == "submit":
        txs = [{"to": A, "n": i} for i in range(3)]
        # up to three transactions in flight, finished in every order and way
        for n in (1, 2, 3):
            for order in itertools.permutations(range(n)):
                for errs in itertools.product((0, 1), repeat=n):
                    core.arm()
                    s = S(j, t)
                    reqs = []
                    for i in range(n):
                        r, c, q = s.ask("POST", "/api/signsubmittx", {"tx": txs[i], "sign": bool(i % 2)})
                        if not j.true("submitted", r is None and [x[1:] for x in c] == [("sendTransaction", ["0xwallet", txs[i]])], s.tag):
                            return
                        reqs.append((q, c[0][0]))
                    for i in order:
                        ev = s.fin(reqs[i][1], **({"err": "reverted %d" % i} if errs[i] else {"ok": {"hash": "0x%d" % i}}))
                        r = reply(ev, reqs[i][0])
                        g = js(r[0]) if r else {}
                        if errs[i]:
                            j.true("failed transaction", g.get("success") is False and "reverted %d" % i in str(g.get("error")), s.tag)
                        else:
                            j.true("receipt", g == {"success": True, "data": {"txReceipt": {"hash": "0x%d" % i}}}, s.tag)
                        j.true("one transaction each", not any(e[0] == "call" for e in ev), s.tag)
    elif kind == "erc20":
        _, f, top = item
        m = {"decimals": "decimals", "symbol": "symbol", "balance_of": "balanceOf"}[f]
        toks = [A, B, C_, "0x" + "d" * 40]
        s = S(j, t)
        for n in range(0, top + 1):
            for order in itertools.permutations(range(n)):
                for errs in itertools.product((0, 1), repeat=n):
                    core.arm()
                    body = {"tokens": toks[:n]}
                    if f == "balance_of":
                        body["address"] = "0xme"
                    r, c, q = s.ask("POST", "/api/erc20/" + f, body)
                    w = [(m, [a] + (["0xme"] if f == "balance_of" else [])) for a in toks[:n]]
                    if not j.true("contract calls", [x[1:] for x in c] == w, "%s, expected %s" % (s.tag, w)):
                        return
                    got = [r] if r else []
                    for i in order:
                        got += reply(s.fin(c[i][0], **({"err": "revert %d" % i} if errs[i] else {"ok": i * 7})), q)
                    g = js(got[0]) if len(got) == 1 else {}
                    if any(errs):
                        j.true("failing contract", g.get("success") is False and isinstance(g.get("error"), str) and any("revert %d" % i in g["error"] for i in range(n) if errs[i]), "%s %s" % (got, s.tag))
                    else:
                        j.true("contract results", g == {"success": True, "data": [i * 7 for i in range(n)]}, "%s %s" % (got, s.tag))
        for toks, me in (([A, B, A], "0xme"), ([A] * 4, "0xyou"), ([A, B], None), ([B], "")):
            for back in (False, True):
                body = dict({"tokens": toks}, **({"address": me} if me is not None else {}))
                r, c, q = s.ask("POST", "/api/erc20/" + f, body)
                w = [(m, strip([a] + ([me if me is not None else "<undefined>"] if f == "balance_of" else []))) for a in toks]
                if not j.true("contract calls", [x[1:] for x in c] == w, "%s, expected %s" % (s.tag, w)):
                    return
                got = [r] if r else []
                for i in sorted(range(len(c)), reverse=back):
                    got += reply(s.fin(c[i][0], ok=i * 3), q)
                j.true("contract results", len(got) == 1 and js(got[0]) == {"success": True, "data": [i * 3 for i in range(len(c))]}, "%s %s" % (got, s.tag))
        s.alive()
    elif kind == "erc20err":
        s = S(j, t, badContract=BAD)
        for f in ("decimals", "symbol", "balance_of", "approve"):
            for body in ({"tokens": [BAD]}, {}, {"tokens": None}) + (({"tokens": [A], "to": B, "amount": "5"},) if f == "approve" else ()):
                r, c, _ = s.ask("POST", "/api/erc20/" + f, body)
                g = js(r) if r else {}
                j.true("bad contract call", g.get("success") is False and isinstance(g.get("error"), str), s.tag)
                s.alive()
        for n in (1, 2, 3):
            r, c, _ = s.ask("POST", "/api/erc20/hello", {"tokens": [A] * n})
            j.true("hello", js(r) == {"success": True, "data": ["hello world"] * n} and not c, s.tag)
    elif kind == "routes":
        s = S(j, t)
        for m, path in (("GET", "/api/scall/pairs"), ("GET", "/api/ascall/pairs"), ("POST", "/api/result/1"), ("POST", "/api/addr"), ("GET", "/api/signsubmittx"), ("GET", "/api/erc20/symbol"), ("GET", "/api"), ("POST", "/api/scall"), ("POST", "/"),
                        ("GET", "/api/result"), ("POST", "/api/scall/pairs/x"), ("GET", "/nothing")):
            r, c, _ = s.ask(m, path, {"tokens": [A], "tx": {}} if m == "POST" else None)
            j.true("no such route", r is not None and r[0] == 404 and not c, s.tag)
        for path in ("/api/scall/qmul", "/api/ascall/qmul", "/api/signsubmittx", "/api/erc20/symbol"):
            r, c, _ = s.ask("POST", path, "{bad json")
            j.true("bad json", r is not None and r[0] == 400 and not c, s.tag)
        for f in FUNCS:
            for mode in ("s", "as"):
                r, c, _ = s.ask("POST", "/api/%scall/%s" % (mode, f))
                j.true("no parameters", len(c) <= 1, s.tag)
        s.alive()


# ---------------------------------------------------------------- N03: the client of the repository against the server of the repository

CAMEL = {v[0]: (k, v[1]) for k, v in FUNCS.items()}


class NodeServer(encx.Server):
    """what the client sends goes to the real server; the SDK behind it is the market of encx.Server"""
    j = t = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.node, self.started, self.n = None, None, 0
        self.hold = False           # leave SDK calls open
        self.held = []

    def boot(self):
        self.node = Node.fresh()
        port = self.url.rsplit(":", 1)[1]
        has = ["%s,%s" % (a, b) for a in HASADDR for b in HASADDR if self.haspair(a, b)]
        self.step(["new", dict(mnemonic=self.wallet, argv=[port, self.token], sync={"pairs": encx.PAIRS_RAW, "has": has})])
        self.started, self.n = (self.wallet, self.token), 0

    def step(self, s):
        ev = self.node.run([s])[0]
        NodeServer.t.add("transitions")
        NodeServer.j.true("server terminates", not any(e[0] == "crash" for e in ev), "%s -> %s" % (s, ev))
        return ev

    def serve(self, method, url, headers, body):
        if self.mode != "ok" or not url.startswith(self.url) or not url[len(self.url):].startswith("/%s/" % self.base):
            return super().serve(method, url, headers, body)
        path = "/api" + url[len(self.url) + 1 + len(self.base):]
        self.log.append((method, url[len(self.url):], json.loads(json.dumps(body))))
        if self.started != (self.wallet, self.token):
            self.boot()
        n = self.n
        self.n += 1
        ev = self.step(["req", method.upper(), path, headers or {}] + ([] if body is None else [json.dumps(body)]))
        todo = [e for e in ev if e[0] in ("call", "timer")]
        if self.hold:
            self.held += [e for e in todo if e[0] == "timer" or e[2] not in ("pairs", "hasLiquidityByPair")]
        else:
            for e in todo:
                ev = ev + self.finish_call(e)
        r = reply(ev, n)
        if not NodeServer.j.true("one reply", len(r) == 1, "%s %s %s -> %s" % (method, path, body, ev)):
            raise OSError("no reply")
        return encx.Reply(r[0][0], r[0][2])

    def finish_call(self, e):
        if e[0] == "timer":
            return self.step(["timer", e[1]])
        _, k, name, args = e
        if name in ("pairs", "hasLiquidityByPair"):
            return []
        return self.step(["fin", k, self.answer(name, args)])

    def answer(self, name, args):
        try:
            if name in ("decimals", "symbol", "balanceOf"):
                a = args[0].lower()
                return {"ok": {"decimals": lambda: encx.DEC[a], "symbol": lambda: "SYM" + a[-4:], "balanceOf": lambda: encx.bn(int(a[-6:], 16) * len(args[1]))}[name]()}
            if name == "sendTransaction":
                self.submitted.append((args[1], True))
                x = self.execute(args[1])
                return {"err": x} if x else {"ok": {"n": len(self.submitted)}}
            f, names = CAMEL[name]
            p = {k: v for k, v in zip(names, args) if v != "<undefined>"}
            return {"ok": self.dispatch(f, p)}
        except encx.Bad as x:
            return {"err": str(x)}


HASADDR = sorted({t.a for t in (encx.Tokens[x] for x in ("ETH", "USDC", "WBTC", "LINK", "DAI", "GUSD", "CEL"))} | {encx.XTKN[x].a for p, x_ in encx.MP if x_ for x in p.split("/")} | {
    encx.Tokens[x].a for p, x_ in encx.MP if not x_ for x in p.split("/")})


def n03_items(th):
    yield ("endpoints",)
    for x in encx.e03_items(th):
        if x[0] == "strat":
            yield ("e03", x[:2] + (4 if th else 3,))
        elif x[0] == "trade":
            if x[5] in (1, 0.37):
                yield ("e03", x)
        elif x[0] != "create":
            yield ("e03", x)
    for a in range(len(ACALLS)):
        for b in range(len(ACALLS)):
            yield ("async", a, b)


def _t(n):
    return encx.Tokens[n].a


# asynchronous calls of the client: (call, function of the model, parameters)
ACALLS = [
    (lambda c: c.plus(3, 4, sync=False), {"func": "plus", "a": 3, "b": 4, "result": 7}),
    (lambda c: c.qmul(3, 5, sync=False), {"func": "qmul", "a": 3, "b": 5, "result": 15}),
    (lambda c: c.getMatchParams(_t("ETH"), _t("USDC"), 2, True, sync=False), ("get_match_params", dict(sourceToken=_t("ETH"), targetToken=_t("USDC"), amount="2", tradeByTargetAmount=True))),
    (lambda c: c.getTradeDataFromActions(_t("USDC"), _t("ETH"), False, [{"strategyId": 2 ** 128 + 1, "amount": 3}], sync=False),
     ("get_trade_data_from_actions", dict(sourceToken=_t("USDC"), targetToken=_t("ETH"), tradeByTargetAmount=False, actionsWei=[{"strategyId": str(2 ** 128 + 1), "amount": "3"}]))),
    (lambda c: c.call("get_min_rate_by_pair", dict(sourceToken=_t("ETH"), targetToken=_t("USDC")), sync=False), ("get_min_rate_by_pair", dict(sourceToken=_t("ETH"), targetToken=_t("USDC")))),
    (lambda c: c.call("get_rate_liquidity_depth_by_pair", dict(sourceToken=_t("ETH"), targetToken=_t("USDC"), rate=["1", "0.5"]), sync=False),
     ("get_rate_liquidity_depth_by_pair", dict(sourceToken=_t("ETH"), targetToken=_t("USDC"), rate=["1", "0.5"]))),
    (lambda c: c.call("has_liquidity_by_pair", dict(pairList=[dict(sourceToken=_t("ETH"), targetToken=_t("USDC")), dict(sourceToken=_t("USDC"), targetToken=_t("ETH"))]), sync=False),
     ("has_liquidity_by_pair", dict(pairList=[dict(sourceToken=_t("ETH"), targetToken=_t("USDC")), dict(sourceToken=_t("USDC"), targetToken=_t("ETH"))]))),
    (lambda c: c.call("pairs", {}, sync=False), ("pairs", {})),
]


def n03(item, t):
    j = J(t, list(item))
    t.seen("states", repr(item))
    NodeServer.j, NodeServer.t = j, t
    if item[0] == "e03":
        old = encx.Server
        encx.Server = NodeServer
        try:
            encx.e03(item[1], t)
        finally:
            encx.Server = old
        return
    srv = NodeServer()
    with encx.With(srv):
        c = encx.client(Tokens=encx.Tokens)
        if item[0] == "endpoints":
            cases, ov, acts, sacts = encx.ep_cases(srv, c)
            for tag, f, want in cases:
                r, e = call(f)
                j.true(tag, e is None and r == want, "%r %r, expected %r" % (r, e, want))
            j.true("address", call(c.addr) == (srv.wallet, None), "")
            # errors arrive as errors
            r, e = call(c.getMinRateByPair, "0x12", _t("USDC"))
            j.true("bad address", isinstance(e, RuntimeError) and "invalid address" in str(e), "%r %r" % (r, e))
            r, e = call(c.deleteStrategy, 12345)
            r, e = call(c.signsubmittx, r)
            j.true("failing transaction", isinstance(e, RuntimeError) and "no such strategy" in str(e), "%r %r" % (r, e))
            c2 = encx.client(token="other", Tokens=encx.Tokens)
            for f in (lambda: c2.getMinRateByPair(_t("ETH"), _t("USDC")), lambda: c2.getERC20Decimals([encx.Tokens.ETH]), lambda: c2.signsubmittx({"tx": "x"})):
                n = len(srv.submitted)
                r, e = call(f)
                j.true("other token", isinstance(e, RuntimeError) and len(srv.submitted) == n, "%r %r" % (r, e))
            srv.wallet = None
            j.true("no wallet", call(c.addr) == (None, None), "%r" % (call(c.addr),))
            r, e = call(c.getMinRateByPair, _t("ETH"), _t("USDC"))
            j.true("no wallet needed", e is None and r == srv.rates(_t("ETH"), _t("USDC"))[0], "%r %r" % (r, e))
            r, e = call(c.signsubmittx, {"tx": "x"})
            j.true("nothing to sign with", isinstance(e, RuntimeError), "%r %r" % (r, e))
            return
        # two asynchronous calls, completed and polled in every order
        pair = [ACALLS[item[1]], ACALLS[item[2]]]
        want = [w if isinstance(w, dict) else json.loads(json.dumps(srv.dispatch(*w))) for _, w in pair]
        immediate = [item[k] in (1, 6, 7) for k in (1, 2)]
        for order in itertools.permutations((0, 1, 2, 3, 4)):       # 0,1: complete; 2,3: poll; 4: poll of an unknown id
            srv = NodeServer()
            srv.hold = True
            with encx.With(srv):
                c = encx.client(Tokens=encx.Tokens)
                ids, held = [], []
                for f, _ in pair:
                    srv.held = []
                    r, e = call(f, c)
                    if not j.true("request id", e is None and r not in ids and r is not False, "%r %r" % (r, e)):
                        return
                    ids.append(r); held.append(srv.held)
                done = list(immediate)
                for o in order + (2, 3):
                    t.add("comparisons")
                    if o < 2:
                        for e in held[o]:
                            srv.finish_call(e)
                        done[o] = True
                    elif o == 4:
                        r, e = call(c.result, 999)
                        j.true("unknown id", isinstance(e, c.UnknownReqIdError), "%r %r" % (r, e))
                    else:
                        r, e = call(c.result, ids[o - 2])
                        w = want[o - 2] if done[o - 2] else True
                        j.true("result", e is None and r == w, "%s: %r %r, expected %r" % (order, r, e, w))


FN = {"N01": n01, "N02": n02, "N03": n03}
ITEMS = {"N01": n01_items, "N02": n02_items, "N03": n03_items}
BOUNDS = {
    "N01": "up to 3 synchronous and asynchronous requests of 6 kinds, SDK calls and timers completing or failing in every order, polls anywhere, 3 clocks; all histories up to depth 5 (quick) or 6 (thorough), one less with a moving clock, each followed by polls of every request; two calls with every pair of 9 outcomes, in both orders, polled at every moment",
    "N02": "12 functions with 6 sets of arguments, 11 kinds of values, 8 forms of addresses, bulk and contract calls of up to 3 (quick) or 4 (thorough) parts completing and failing in every order, up to 3 transactions in flight, 8 wrong tokens on every route, 3 wallets",
    "N03": "all endpoints, the markets, trades and strategies of E03 (histories up to depth 3 or 4) through the real client and the real server; every pair of 8 asynchronous calls completed and polled in every order"}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    return tally, dict(states=max(tally.n.get("histories", 0), len(tally.sets.get("states", ())) or len(it)), transitions=tally.n.get("transitions", 0), exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = _tup(case["case"])
    if pid == "N01" and c[0] != "ends":
        return n_hist(J(t, c), t, c[0], c[1])
    if pid == "N03" and c[0] not in ("endpoints", "async"):
        c = ("e03", c)
    FN[pid](c, t)
