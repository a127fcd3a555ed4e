"""Arbitrage graphs (carbon/tools/arbgraphs.py): construction and queries (G01), transport (G02), cycles and
arbitrage runs (G03), prices (G04), edges and amounts (G05)."""
import itertools
import copy
import math

import numpy as np

from mc import core
from mc.core import call, num
from mc.oui import J
from mc.cpcx import CPC, CPCContainer
from mc.optx import Opt, NETS, curves as mkcurves, components, start
from carbon.tools import arbgraphs as ag
from carbon.tools.arbgraphs import ArbGraph, Node, Edge, Amount, Path, Cycle, TrackedStateFloat

T = ("A", "AB", "ABC", "BC")
ORD = [(a, b) for a in T[:3] for b in T[:3] if a != b]
AMT = ((4.0, 10.0), (0.5, 2000.0))


def amount_graph(edges, how="add"):
    """edges: [(in, amt_in, out, amt_out, inverse, uid)]"""
    if how == "nodes":
        # nodes are added before the edges, and added again afterwards
        g = ArbGraph()
        for tk in order(edges):
            assert g.add_node(tk) is g
        for a, x, b, y, inv, uid in edges:
            g.add_edge(a, x, b, y, inverse=inv, uid=uid)
            g.add_node(b)
        return g
    if how == "add":
        g = ArbGraph()
        for a, x, b, y, inv, uid in edges:
            r = g.add_edge(a, x, b, y, inverse=inv, uid=uid)
            assert r is g
        return g
    if how == "dxdy":
        g = ArbGraph()
        for k, (a, x, b, y, inv, uid) in enumerate(edges):
            if k % 2:
                g.add_edge_dxdy(b, -y, a, x, inverse=inv, uid=uid)
            else:
                g.add_edge_dxdy(a, x, b, -y, inverse=inv, uid=uid)
        return g
    toks = order(edges)
    nodes = list(Node.create_node_list(", ".join(toks))) if how == "str" else list(Node.create_node_list(list(toks)))
    by = {n.tkn: n for n in nodes}
    return ArbGraph(nodes=nodes, edges=[Edge(by[a], x, by[b], y, inverse=inv, uid=uid) for a, x, b, y, inv, uid in edges])


def order(edges):
    seen = []
    for e in edges:
        for tk in (e[0], e[2]):
            if tk not in seen:
                seen.append(tk)
    return seen


# ---------------------------------------------------------------- G01

def g01_items(th):
    al = [(o, k) for o in range(6) for k in range(2)]
    for n in range(0, 4 if not th else 5):
        seqs = itertools.product(range(12), repeat=n)
        for i, s in enumerate(seqs):
            if n == 3 and not th and i % 3:
                continue
            if n == 4 and i % 7:
                continue
            yield ("amt", tuple(al[x] for x in s))
    for n in (1, 2, 3):
        for i, s in enumerate(itertools.product(range(len(CONN)), repeat=n)):
            if n == 3 and (i % 5 if not th else 0):
                continue
            yield ("conn", s)
    for nm in NETS:
        for k in (1, 2, 3):
            for c in itertools.combinations(range(len(NETS[nm])), k):
                yield ("cc", nm, c)


# in, out, price (out per in), how it is given, weight, symmetric
CONN = [("A", "AB", 2.0, "p", None, True), ("A", "AB", 2.5, "outperin", 3.0, True), ("AB", "A", 0.45, "p", 2.0, False), ("AB", "ABC", 7.0, "inv", None, True),
        ("ABC", "A", 0.07, "inv", 0.5, False), ("A", "ABC", 15.0, "p", 1.0, True), ("AB", "A", 0.4, "inv", 1.5, True), ("A", "AB", 1.0, "none", None, True)]


def conn_graph(idx):
    g = ArbGraph()
    rows = []
    for k, i in enumerate(idx):
        a, b, p, how, w, sym = CONN[i]
        kw = {"p": dict(price=p), "outperin": dict(price_outperin=p), "inv": dict(price=1 / p, inverse=True), "none": {}}[how]
        inv = how == "inv"
        r = (g.add_edge_ct if k % 2 else g.add_edge_connectiontype)(a, b, weight=w, symmetric=sym, uid="u%d" % k, **kw)
        assert r is g
        rows.append((a, b, p, w or 1, inv, "u%d" % k))
        if sym:
            rows.append((b, a, 1 / p, w or 1, not inv, "u%d-r" % k))
    return g, rows


def connected(toks, pairs):
    if not toks:
        return None
    seen, todo = set(), [toks[0]]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [b if a == x else a for a, b in pairs if x in (a, b)]
    return seen == set(toks)


def structure(j, g, toks, ends, tag):
    """nodes, edges, lookups, matrices of a graph that is supposed to have these tokens and edges (in, out)"""
    j.true(tag + " size", len(g) == len(ends) and tuple(g.len()) == (len(ends), len(toks)), "%r, expected %d edges %d nodes" % (g.len(), len(ends), len(toks)))
    if not j.true(tag + " nodes", [n.tkn for n in g.nodes] == list(toks) and [n.ix for n in g.nodes] == list(range(len(toks))), "%r" % [(n.tkn, n.ix) for n in g.nodes]):
        return False
    if not j.true(tag + " edges", [(e.tkn_in, e.tkn_out, e.ix) for e in g.edges] == [(a, b, i) for i, (a, b) in enumerate(ends)], "%s" % [str(e) for e in g.edges]):
        return False
    N = {tk: g.nodes[i] for i, tk in enumerate(toks)}
    j.true(tag + " edge nodes", all(e.node_in is N[e.tkn_in] and e.node_out is N[e.tkn_out] for e in g.edges), "edges not linked to the graph's nodes")
    for i, tk in enumerate(toks):
        j.true(tag + " lookup", g.node_by_tkn(tk) is N[tk] and g.n(N[tk]) is N[tk] and g.node_by_ix(i) is N[tk] and g.node(i) is N[tk], tk)
        v, e = call(g.node_by_tkn, Node(tk))
        j.true(tag + " foreign node", e is not None, "accepted")
    j.true(tag + " lookup none", g.node_by_tkn(None) is None, "")
    v, e = call(g.node_by_tkn, "FOO")
    j.true(tag + " lookup missing", isinstance(e, KeyError), "%r %r" % (v, e))
    for i in range(len(ends)):
        j.true(tag + " edge lookup", g.edge_by_ix(i) is g.edges[i] and g.edge(i) is g.edges[i], "")
    ids = lambda l: sorted(id(x) for x in l)
    sel = lambda f: ids(e for e, (a, b) in zip(g.edges, ends) if f(a, b))
    opts = list(toks) + [None]
    for a in opts:
        for b in opts:
            if a is not None and a == b:
                continue
            w = sel(lambda x, y: (a is None or x == a) and (b is None or y == b))
            wr = sel(lambda x, y: (a is None or y == a) and (b is None or x == b))
            nd = lambda tk: None if tk is None else N[tk]
            j.true(tag + " filter", ids(g.filter_edges(a, b)) == w and ids(g.fe(nd(a), nd(b))) == w and ids(g.fe(node_in=a, node_out=nd(b), bothways=False)) == w, "%s->%s" % (a, b))
            j.true(tag + " filter both ways", ids(g.filter_edges(a, b, bothways=True)) == sorted(w + wr), "%s<->%s" % (a, b))
            if a and b:
                pr = "%s/%s" % (a, b)
                j.true(tag + " filter pair", ids(g.filter_edges(pair=pr)) == sorted(w + wr) and ids(g.fep(pr)) == sorted(w + wr)
                       and ids(g.fep(pr, bothways=False)) == w and ids(g.filter_edges(pair=pr, bothways=False)) == w, pr)
                v, e = call(g.filter_edges, a, pair=pr)
                j.true(tag + " filter misuse", e is not None, "")
    for a in toks:
        w = sel(lambda x, y: a in (x, y))
        j.true(tag + " filter node", ids(g.filter_edges(node=a)) == w and ids(g.filter_edges(node=N[a])) == w, a)
    if not toks:
        return True
    n = len(toks)
    ix = {tk: i for i, tk in enumerate(toks)}
    A = np.zeros((n, n)); U = np.zeros((n, n))
    for a, b in ends:
        A[ix[a], ix[b]] = 1
        U[ix[a], ix[b]] = U[ix[b], ix[a]] = 1
    j.true(tag + " adjacency", np.array_equal(g.A.toarray(), A), "%s" % g.A.toarray().tolist())
    L = np.diag(U.sum(axis=1)) - U
    j.true(tag + " laplacian", np.array_equal(g.L.toarray(), L), "%s" % g.L.toarray().tolist())
    L2, ev = g.Laplacian()
    j.true(tag + " laplacian eigenvalues", np.array_equal(L2.toarray(), L) and abs(sum(ev).real - np.trace(L)) < 1e-9 and min(abs(ev)) < 1e-9, "%r" % (ev,))
    A2, ev = g.Adjacency()
    j.true(tag + " adjacency eigenvalues", np.array_equal(A2.toarray(), A) and len(ev) == n and abs(sum(ev)) < 1e-9 * n, "%r" % (ev,))
    for inout, M in ((g.DEGREE, U.sum(axis=1)), (g.INDEGREE, A.sum(axis=0)), (g.OUTDEGREE, A.sum(axis=1))):
        want = {i: int(v) for i, v in enumerate(M)}
        j.true(tag + " degree", dict(g.degree(inout)) == want, "%r %r" % (inout, g.degree(inout)))
        m, e = call(g.degree, inout, as_matrix=True)
        j.true(tag + " degree matrix", e is None and np.array_equal(m, np.diag(M)), "%r %r" % (m, e))
    j.true(tag + " degrees", dict(g.in_degree()) == {i: int(v) for i, v in enumerate(A.sum(axis=0))} and dict(g.out_degree()) == {i: int(v) for i, v in enumerate(A.sum(axis=1))}, "")
    j.true(tag + " weakly connected", g.is_weakly_connected == connected(list(toks), ends), "")
    G = g.G
    j.true(tag + " networkx", sorted(G.nodes()) == list(range(n)) and sorted(G.edges()) == sorted({(ix[a], ix[b]) for a, b in ends}) and [G.nodes[i]["tkn"] for i in range(n)] == list(toks), "")
    return True


def primary(a, b):
    return "%s/%s" % ((a, b) if a < b else (b, a))       # none of the tokens is a numeraire


def g01(item, t):
    {"amt": g01_amt, "conn": g01_conn, "cc": g01_cc}[item[0]](item, t)


def g01_amt(item, t):
    j = J(t, ["amt", [list(x) for x in item[1]]])
    edges = []
    for i, (o, k) in enumerate(item[1]):
        a, b = ORD[o]
        x, y = AMT[k]
        edges.append((a, x * (1 + i), b, y, bool(i % 2), "id%d" % i))
    toks = order(edges)
    ends = [(e[0], e[2]) for e in edges]
    gs = []
    for how in ("add", "dxdy", "nodes", "str", "list") if edges else ("add", "dxdy", "list"):
        g, e = call(amount_graph, edges, how)
        t.add("graphs")
        if not j.true(how, e is None, "raised %r" % (e,)):
            continue
        if structure(j, g, toks, ends, how):
            gs.append(g)
            j.true(how + " amounts", [(e.amount_in, e.amount_out, e.inverse, e.uid) for e in g.edges] == [(x, y, inv, u) for a, x, b, y, inv, u in edges], "%s" % [e.asdict() for e in g.edges])
            j.true(how + " type", (g.edgetype, g.is_amounttype) == ((g.EDGE_AMOUNT, True) if edges else (None, False)), "%r" % g.edgetype)
    if not gs:
        return
    g = gs[0]
    if edges:
        v, e = call(g.add_edge_ct, "A", "AB", price=2.0)
        j.true("edge types do not mix", isinstance(e, ValueError) and len(g) == len(edges), "%r" % (e,))
    for bad in (("A", 0, "AB", 1), ("A", -1, "AB", 1), ("A", 1, "AB", 0)):
        v, e = call(amount_graph(edges).add_edge, *bad)
        j.true("bad amounts", e is not None, "%r" % (bad,))
    v, e = call(amount_graph(edges).add_edge_dxdy, "A", 1.0, "AB", 2.0)
    j.true("bad signs", isinstance(e, ValueError), "%r" % (e,))
    g = amount_graph(edges)
    g.add_edge_dxdy("A", 0.0, "AB", 0.0)
    j.true("zero trade", len(g) == len(edges), "")
    # statistics
    g = amount_graph(edges)
    used = [0.0] * len(edges)
    for i, e in enumerate(g.edges):
        if i % 2 == 0:
            e.state.amount_in_remaining = e.amount_in * 0.25
            used[i] = 0.75
    for a in toks:
        for b in toks:
            if a == b:
                continue
            rows = [(i, e) for i, e in enumerate(edges) if (e[0], e[2]) == (a, b)]
            s = g.edge_statistics(a, b)
            s2 = g.edge_statistics(g.n(a), g.n(b))
            both = g.edge_statistics(a, b, bothways=True)
            byp = g.edge_statistics(pair="%s/%s" % (a, b))
            j.true("statistics both ways", len(both) == len(byp) == 2 and both == byp == g.edge_statistics(pair="%s/%s" % (a, b), bothways=True) and both[0] == s == s2 and both[1] == g.edge_statistics(b, a), "")
            if not rows:
                j.true("statistics empty", s is None, repr(s))
                continue
            ai, ao = [e[1] for i, e in rows], [e[3] for i, e in rows]
            rem = [e[1] * (1 - used[i]) for i, e in rows]
            forms = [(s, g.n(a), g.n(b)), (g.edge_statistics(edges=tuple(g.edges[i] for i, e in rows)), a, b)]
            for s, na, nb in forms:
                j.true("statistics", s.len == len(rows) and [x.ix for x in s.edges] == [i for i, e in rows] and list(s.amounts_in) == ai and list(s.amounts_out) == ao, repr(s))
                j.true("statistics remaining", np.allclose(s.amounts_in_remaining, rem, 1e-12) and np.allclose(s.utilizations, [used[i] for i, e in rows], 1e-12), repr(s))
                j.true("statistics prices", np.allclose(s.prices, [y / x for x, y in zip(ai, ao)], 1e-12), repr(s.prices))
                j.eq("statistics total", s.amount_in.amount, sum(ai)); j.eq("statistics total", s.amount_out.amount, sum(ao)); j.eq("statistics remaining", s.amount_in_remaining.amount, sum(rem))
                j.eq("statistics price", s.price, sum(ao) / sum(ai)); j.eq("statistics utilization", s.utilization, 1 - sum(rem) / sum(ai), 1e-9, 1e-12)
                j.true("statistics tokens", s.amount_in.node in (na, a) and s.amount_out.node in (nb, b) and s.amount_in_remaining.node in (na, a), repr(s.amount_in))
    v, e = call(g.edge_statistics, edges=tuple(g.edges))
    if len(set(ends)) > 1:
        j.true("statistics of mixed edges", isinstance(e, ValueError), "%r" % (v,))
    for a in toks:
        o = [i for i, x in enumerate(edges) if x[0] == a]
        i_ = [i for i, x in enumerate(edges) if x[2] == a]
        for arg in (a, g.n(a)):
            s = g.node_statistics(arg)
            j.true("node statistics", s.node is g.n(a) and [x.ix for x in s.edges_out] == o and [x.ix for x in s.edges_in] == i_
                   and set(s.nodes_out) == {edges[k][2] for k in o} and set(s.nodes_in) == {edges[k][0] for k in i_}, repr(s))
            j.eq("node statistics in", s.amount_in.amount, sum(edges[k][3] for k in i_)); j.eq("node statistics out", s.amount_out.amount, sum(edges[k][1] for k in o))
            j.eq("node statistics remaining", s.amount_out_remaining.amount, sum(edges[k][1] * (1 - used[k]) for k in o))
    # duplicates: same edges, own objects
    dup(j, g, toks, [(a, b, x, y, inv) for a, x, b, y, inv, u in edges], [u for *_, u in edges], t)
    # as table
    if edges and (len(edges) < 3 or sum(o for o, k in item[1]) % 4 == 0):
        df = g.edgedf(consolidated=False)
        t.add("frames")
        j.true("edgedf", list(df.index) == [u for *_, u in edges] and df.reset_index().to_dict(orient="records") ==
               [dict(uid=u, pair=primary(a, b), tkn_in=a, tkn_out=b, amount_in=x, amount_out=y) for a, x, b, y, inv, u in edges], repr(df.to_dict()))
        want = {}
        for a, x, b, y, inv, u in edges:
            k = (primary(a, b), a, b)
            want[k] = (want.get(k, (0, 0))[0] + x, want.get(k, (0, 0))[1] + y)
        df = g.edgedf(consolidated=True, resetindex=True)
        got = {(r["pair"], r["tkn_in"], r["tkn_out"]): (r["amount_in"], r["amount_out"]) for r in df.to_dict(orient="records")}
        j.true("edgedf consolidated", sorted(got) == sorted(want) and all(np.allclose(got[k], want[k]) for k in want), "%r, expected %r" % (got, want))
        df = g.edgedf()
        j.true("edgedf index", sorted(df.index) == sorted(want), "")
        one = g.edgedf(edges=[g.edges[-1]], consolidated=False)
        j.true("edgedf of edges", list(one.index) == [edges[-1][5]], "")


def dup(j, g, toks, rows, uids, t):
    """rows: in, out, amount in, amount out, inverse"""
    before = [(e.amount_in, e.amount_out, e.inverse, e.ix, e.uid) for e in g.edges]
    rem = [e.state.amount_in_remaining for e in g.edges] if g.is_amounttype else None
    d, e = call(g.duplicate, False)
    t.add("graphs")
    if j.true("duplicate", e is None, "raised %r" % (e,)) and structure(j, d, toks, [r[:2] for r in rows], "duplicate"):
        j.true("duplicate edges", [(e.amount_in, e.amount_out, e.inverse, e.uid) for e in d.edges] == [(x, y, inv, u) for (a, b, x, y, inv), u in zip(rows, uids)], "%s" % [e.asdict() for e in d.edges])
        check_fresh(j, g, d, "duplicate")
    d, e = call(g.duplicate)
    t.add("graphs")
    if j.true("consolidated", e is None, "raised %r" % (e,)):
        want = {}
        for a, b, x, y, inv in rows:
            v = want.setdefault((a, b), [0, 0])
            v[0] += x; v[1] += y
        got = [(e.tkn_in, e.tkn_out) for e in d.edges]
        j.true("consolidated pairs", sorted(got) == sorted(want), "%r" % (got,))
        if sorted(got) == sorted(want) and structure(j, d, toks, got, "consolidated"):
            for e in d.edges:
                w = want[(e.tkn_in, e.tkn_out)]
                j.eq("consolidated in", e.amount_in, w[0]); j.eq("consolidated out", e.amount_out, w[1])
            check_fresh(j, g, d, "consolidated")
            if g.is_amounttype:
                j.true("consolidated state", all(e.state.amount_in_remaining == e.amount_in for e in d.edges), "")
    j.true("original unchanged", before == [(e.amount_in, e.amount_out, e.inverse, e.ix, e.uid) for e in g.edges]
           and (rem is None or rem == [e.state.amount_in_remaining for e in g.edges]), "")


def check_fresh(j, g, d, tag):
    j.true(tag + " has its own objects", not {id(x) for x in g.edges} & {id(x) for x in d.edges} and not {id(x) for x in g.nodes} & {id(x) for x in d.nodes}, "")
    # the duplicate is a full graph: it can be extended and searched
    n = len(d)
    if d.is_amounttype or not n:
        r, e = call(d.add_edge, "A", 1.0, "Z", 1.0)
    else:
        r, e = call(d.add_edge_ct, "A", "Z", price=1.0, symmetric=False)
    j.true(tag + " can be extended", e is None and len(d) == n + 1 and d.edges[-1].tkn_out == "Z", "%r" % (e,))


def g01_conn(item, t):
    j = J(t, ["conn", list(item[1])])
    r, e = call(conn_graph, item[1])
    if not j.true("connections", e is None, "raised %r" % (e,)):
        return
    g, rows = r
    t.add("graphs")
    toks = order([(a, 0, b) for a, b, *_ in rows])
    if not structure(j, g, toks, [x[:2] for x in rows], "connections"):
        return
    j.true("type", g.edgetype == g.EDGE_CONNECTION and not g.is_amounttype, repr(g.edgetype))
    for e, (a, b, p, w, inv, u) in zip(g.edges, rows):
        j.eq("price", e.price_outperin, p); j.eq("price", e.p_outperin, p); j.eq("price", e.price(inverse=False), p); j.eq("price", e.p(), 1 / p if inv else p)
        j.eq("inverse price", e.price(True), 1 / p)
        j.true("edge", e.inverse == inv and e.uid == u and e.edgetype == Edge.EDGE_CONNECTION and not e.is_amounttype, repr(e.asdict()))
        j.eq("weight", -e.amount_in, w)
        v, ex = call(lambda: e.state)
        j.true("no state", isinstance(ex, ValueError), "")
        v, ex = call(e.transport, 1.0, record=True)
        j.true("no recording", isinstance(ex, ValueError), "")
        j.eq("transport", e.transport(3.0).amount, 3.0 * p); j.eq("transport", e.transport().amount, p)
        j.true("transport", e.transport(3.0).node is e.node_out, "")
    other = conn_graph(item[1])[0]
    v, ex = call(other.add_edge, "A", 1.0, "AB", 1.0)
    j.true("edge types do not mix", isinstance(ex, ValueError) and len(other) == len(rows), "%r" % (ex,))
    v, ex = call(g.edge_statistics, "A", "AB")
    j.true("no statistics", isinstance(ex, ValueError), "")
    dup(j, g, toks, [(a, b, e.amount_in, e.amount_out, inv) for (a, b, p, w, inv, u), e in zip(rows, g.edges)], [u for *_, u in rows], t)
    if len(item[1]) < 3 or sum(item[1]) % 4 == 0:
        df = g.edgedf(consolidated=False)
        t.add("frames")
        for r, (a, b, p, w, inv, u) in zip(df.to_dict(orient="records"), rows):
            prim = a < b
            j.true("edgedf", (r["pair"], r["tkn_in"], r["tkn_out"], bool(r["is_reverse"])) == (primary(a, b), a, b, not prim), repr(r))
            j.eq("edgedf n", r["n"], w); j.eq("edgedf price", r["price_outin"], p); j.eq("edgedf primary price", r["price"], p if prim else 1 / p)
        want = {}
        for a, b, p, w, inv, u in rows:
            v = want.setdefault(primary(a, b), [0, 0, []])
            if a < b:
                v[0] += w; v[2].append(p)
            else:
                v[1] += w
        want = {k: v for k, v in want.items() if v[2]}
        df, ex = call(g.edgedf, consolidated=True, resetindex=True)
        if j.true("edgedf consolidated", ex is None, "raised %r" % (ex,)):
            got = {r["pair"]: r for r in df.to_dict(orient="records")}
            for k, (n, nr, ps) in want.items():
                if j.true("edgedf consolidated", k in got, "%s missing: %s" % (k, sorted(map(str, got)))):
                    r = got[k]
                    j.eq("edgedf consolidated n", r["n"], n); j.eq("edgedf consolidated price", r["price"], sum(ps) / len(ps))
                    j.true("edgedf consolidated reverse", (nr == 0 and (r["n_rev"] == 0 or r["n_rev"] != r["n_rev"])) or abs(r["n_rev"] - nr) < 1e-9, "%s: %r, expected %r" % (k, r["n_rev"], nr))


def g01_cc(item, t):
    """graphs from curves and from optimizer results"""
    _, nm, idx = item
    j = J(t, ["cc", nm, list(idx)])
    cs = mkcurves([NETS[nm][i] for i in idx])
    C = CPCContainer(c.c for c in cs)
    rows = [x for c in cs for x in ((c.b, c.q, c.r.p, c.cid), (c.q, c.b, 1 / c.r.p, c.cid + "-r"))]
    toks = order([(a, 0, b) for a, b, *_ in rows])
    for how in ("from_cc", "container", "list", "generator", "single"):
        if how == "from_cc":
            g, e = call(ArbGraph.from_cc, C)
        elif how == "single":
            g = ArbGraph()
            for c in cs:
                r, e = call(g.add_edges_cpc, c.c)
                j.true("returns itself", r is g, "")
        else:
            g, e = call(ArbGraph().add_edges_cpc, {"container": C, "list": [c.c for c in cs], "generator": (c.c for c in cs)}[how])
        t.add("graphs")
        if j.true(how, e is None, "raised %r" % (e,)) and structure(j, g, toks, [x[:2] for x in rows], how):
            for ed, (a, b, p, u) in zip(g.edges, rows):
                j.eq("curve price", ed.price_outperin, p); j.true("curve id", ed.uid == u, "%r %r" % (ed.uid, u))
    ct = components(cs)
    if ct is None:
        return
    for target in ct[:2]:
        r, e = call(Opt(C).margp_optimizer, target, params=dict(pstart=start(cs, target)))
        if e is not None or r.is_error:
            continue
        dv = r.dxdyvalues()
        for how in ("from_r", "from_ccdxdy"):
            g, e = call(*((ArbGraph.from_r, r) if how == "from_r" else (ArbGraph.from_ccdxdy, C, r.dxvalues, r.dyvalues)))
            t.add("graphs")
            if not j.true(how, e is None, "raised %r" % (e,)):
                continue
            want = []
            for (dx, dy), c in zip(dv, cs):
                if dx * dy < 0:
                    want.append((c.b, dx, c.q, -dy, c.cid) if dx > 0 else (c.q, dy, c.b, -dx, c.cid))
            j.true(how, [(e.tkn_in, e.amount_in, e.tkn_out, e.amount_out, e.uid) for e in g.edges] == want, "%s, expected %s" % ([str(e) for e in g.edges], want))


# ---------------------------------------------------------------- G02

G2 = {
    "parallel": [("A", 4.0, "AB", 8.0, False, "a"), ("A", 1.0, "AB", 3.0, False, "b"), ("AB", 5.0, "A", 2.0, True, "c")],
    "chain": [("A", 4.0, "AB", 8.0, False, "a"), ("AB", 6.0, "ABC", 3.0, False, "b"), ("ABC", 2.0, "A", 5.0, False, "c")],
    "one": [("A", 2.0, "AB", 1e6, True, "a")],
    "tiny": [("A", 1e-5, "AB", 30.0, False, "a"), ("A", 3e-5, "AB", 60.0, False, "b")],
}
EPS = 1e-9


class M2:
    """amounts at the tokens and remaining capacity of the edges"""

    def __init__(self, edges, fund):
        self.e = edges
        self.rem = [e[1] for e in edges]
        self.amt = {tk: fund for tk in order(edges)}

    def key(self):
        return (tuple(round(x, 9) for x in self.rem), tuple(round(v, 9) for v in self.amt.values()))

    def edge(self, i, a, record, strict):
        """-> (amount out, error)"""
        x = self.e[i]
        if a > x[1] + EPS or a < -EPS:
            return None, AssertionError
        out = a * x[3] / x[1]
        if record:
            if strict and (self.rem[i] - a < -EPS or self.amt[x[0]] - a < -EPS):
                return None, ValueError
            self.rem[i] -= a
            self.amt[x[2]] += out
            self.amt[x[0]] -= a
        return out, None

    def graph(self, tin, tout, a, record, strict):
        ix = [i for i, e in enumerate(self.e) if (e[0], e[2]) == (tin, tout)]
        if not ix:
            return None, ValueError
        cap = sum(self.rem[i] for i in ix)
        if cap <= 0:
            return None, Exception
        parts = [self.rem[i] * a / cap for i in ix]
        if any(p > self.e[i][1] + EPS or p < -EPS for p, i in zip(parts, ix)):
            return None, AssertionError
        if record and strict and (a > cap + EPS or self.amt[tin] - a < -EPS):
            return None, ValueError
        outs = []
        for p, i in zip(parts, ix):
            o, e = self.edge(i, p, record, False)
            outs.append(o)
        return (parts, outs, ix), None


def g02_ops(edges, big):
    n = len(edges)
    ops = [("set", order(edges)[0], 2.5), ("add", order(edges)[-1], 1.25)]
    for i in range(n):
        c = edges[i][1]
        for f in (0.3, 1.0):
            ops.append(("edge", i, None if f is None else f * c, True, True))
        if big:
            ops += [("edge", i, None if f is None else f * c, r, s) for f, r, s in ((0.8, True, True), (1.5, True, True), (0.5, False, True), (-0.2, True, True), (0.9, True, False), (None, True, True))]
    for a, b in sorted({(e[0], e[2]) for e in edges}):
        cap = sum(e[1] for e in edges if (e[0], e[2]) == (a, b))
        ops.append(("graph", a, b, 0.5 * cap, True, True))
        if big:
            ops += [("graph", a, b, f * cap, r, s) for f, r, s in ((1.0, True, True), (0.7, False, True), (1.3, True, True), (0.6, True, False))]
            ops.append(("graphamt", a, b, 0.25 * cap, True, True))
    ops += [("reset",)]
    if big:
        a, b = order(edges)[:2]
        ops += [("graph", b + "x", a, 1.0, True, True), ("resetnode", a, 3.0), ("resetedge", 0), ("clear", a)]
    return ops


def g02_apply(g, m, op, j, t):
    before = ([e.state.amount_in_remaining for e in g.edges], [n.state.amount for n in g.nodes])
    kind = op[0]
    t.add("transitions")
    err = None
    if kind in ("set", "add"):
        n = g.n(op[1])
        if kind == "set":
            n.state.amount = op[2]; m.amt[op[1]] = op[2]
        else:
            n.state.amount += op[2]; m.amt[op[1]] += op[2]
        j.true("history", n.state.amount_.history[-1] == n.state.amount and n.state.amount_.value == n.state.amount, "")
    elif kind == "edge":
        _, i, a, rec, strict = op
        w, we = m.edge(i, m.e[i][1] if a is None else a, rec, strict)
        args = (a,) if i % 2 or a is None else (Amount(a, g.edges[i].node_in),)
        v, err = call(g.edges[i].transport, *args, record=rec, raiseonerror=strict)
        j.true("edge transport", (err is None) == (we is None), "%r: %r, expected %r" % (op, err, we))
        if err is None and we is None:
            j.eq("edge transport", v.amount, w, 1e-9); j.true("edge transport", v.node is g.edges[i].node_out, "")
    elif kind in ("graph", "graphamt"):
        _, a, b, x, rec, strict = op
        w, we = m.graph(a, b, x, rec, strict)
        if kind == "graphamt":
            x = Amount(x, g.n(a))
        v, err = call(g.transport, x, a, b, record=rec, raiseonerror=strict)
        if we is not Exception:
            j.true("graph transport", (err is None) == (we is None), "%r: %r, expected %r" % (op, err, we))
        if err is None and w is not None:
            parts, outs, ix = w
            j.true("transport edges", [e.ix for e in v.edges] == ix and np.allclose(v.amounts_in, parts, 1e-9, 1e-12) and np.allclose(v.amounts_out, outs, 1e-9, 1e-12), repr(v))
            j.eq("transport in", v.amount_in.amount, sum(parts), 1e-9, 1e-12); j.eq("transport out", v.amount_out.amount, sum(outs), 1e-9, 1e-12)
    elif kind == "reset":
        j.true("reset", g.reset_state() is g, "")
        m.rem = [e[1] for e in m.e]; m.amt = {k: 0.0 for k in m.amt}
    elif kind == "resetnode":
        g.n(op[1]).reset_state(op[2]); m.amt[op[1]] = op[2]
    elif kind == "clear":
        g.n(op[1]).reset_state(); m.amt[op[1]] = 0.0
    elif kind == "resetedge":
        g.edges[op[1]].reset_state(); m.rem[op[1]] = m.e[op[1]][1]
    if err is not None:
        j.true("failed transport changes nothing", before == ([e.state.amount_in_remaining for e in g.edges], [n.state.amount for n in g.nodes]), "%r raised %r" % (op, err))
    # the state is what the model says
    for e, r in zip(g.edges, m.rem):
        j.eq("remaining capacity", e.state.amount_in_remaining, r, 1e-9, 1e-11, "%s after %r" % (e.uid, op))
        j.true("has capacity", bool(e.has_capacity) == (e.state.amount_in_remaining > EPS) and bool(e.state.is_empty) == (abs(e.state.amount_in_remaining) <= EPS), "")
    for n in g.nodes:
        j.eq("amount", n.state.amount, m.amt[n.tkn], 1e-9, 1e-9, "%s after %r" % (n.tkn, op))
    j.true("capacity left", bool(g.has_capacity()) == any(e.state.amount_in_remaining > EPS for e in g.edges), "")
    for a, b in {(e[0], e[2]) for e in m.e}:
        j.true("capacity left", bool(g.has_capacity(a, b)) == any(e.state.amount_in_remaining > EPS for e in g.edges if (e.tkn_in, e.tkn_out) == (a, b)), "")
    s = g.state
    j.true("state", [x.amount for x in s.nodes] == [n.state.amount for n in g.nodes] and [x.amount_in_remaining for x in s.edges] == [e.state.amount_in_remaining for e in g.edges], "")


def g02_build(nm, fund, hist, j, t, judge):
    g = amount_graph(G2[nm])
    m = M2(G2[nm], fund)
    for n in g.nodes:
        n.state.amount = fund
    quiet = J(core.Tally(), [])
    for k, op in enumerate(hist):
        g02_apply(g, m, op, j if judge and k == len(hist) - 1 else quiet, t if judge and k == len(hist) - 1 else core.Tally())
    return m


def g02_items(th):
    for nm in G2:
        for fund in (0.0, 3.0, 100.0):
            ops = g02_ops(G2[nm], True)
            for o in range(len(ops)):
                yield (nm, fund, o, 3 if th else 2)


def g02(item, t):
    nm, fund, first, depth = item
    big, small = g02_ops(G2[nm], True), g02_ops(G2[nm], False)
    front, seen = [(big[first],)], set()
    for d in range(1, depth + 2):
        nxt = []
        for h in front:
            j = J(t, [nm, fund, [list(o) for o in h]])
            m = g02_build(nm, fund, h, j, t, True)
            k = m.key()
            t.seen("states", (nm, k))
            if k in seen or d == depth + 1:
                continue
            seen.add(k)
            nxt += [h + (o,) for o in (big if d < 2 else small)]
        front = nxt


# ---------------------------------------------------------------- G03

def digraphs(n, canonical):
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    for bits in range(1 << len(pairs)):
        es = [p for i, p in enumerate(pairs) if bits >> i & 1]
        if canonical:
            s = set(es)
            me = sorted(es)
            if any(sorted((p[a], p[b]) for a, b in es) < me for p in itertools.permutations(range(n))):
                continue
        yield tuple(es)


def simple_cycles(es):
    """set of cycles, each as tuple starting at its smallest node"""
    out = set()
    adj = {}
    for a, b in es:
        adj.setdefault(a, set()).add(b)

    def go(path):
        for b in adj.get(path[-1], ()):
            if b == path[0]:
                out.add(tuple(path))
            elif b > path[0] and b not in path:
                go(path + [b])
    for a in adj:
        go([a])
    return out


def g03_items(th):
    for n in (2, 3):
        for es in digraphs(n, False):
            for mult in (1, 2):
                yield ("run", n, es, mult)
    for es in digraphs(4, not th):
        yield ("run", 4, es, 1)
    for n in (1, 2, 3, 4):
        for p in itertools.permutations(range(4), n):
            yield ("iter", p)


def g03(item, t):
    {"run": g03_run, "iter": g03_iter}[item[0]](item, t)


def g03_run(item, t):
    _, n, es, mult = item
    j = J(t, ["run", n, [list(e) for e in es], mult])
    if not es:
        return
    rows = []
    for k, (a, b) in enumerate(es):
        for m in range(mult):
            x = (1 + (7 * k + 3 * m) % 5) * (10.0 if a == 0 else 1.0)
            rows.append((T[a], x, T[b], x * (0.6 + 0.25 * ((3 * k + m) % 4)), False, "%d-%d" % (k, m)))
    nodes = [Node(x) for x in T[:n]]
    g = ArbGraph(nodes=list(nodes))
    for a, x, b, y, inv, u in rows:
        g.add_edge(a, x, b, y, uid=u)
    cyc, e = call(g.cycles)
    t.add("graphs")
    if not j.true("cycles", e is None, "raised %r" % (e,)):
        return
    want = simple_cycles(es)
    norm = lambda l: tuple(l[l.index(min(l)):] + l[:l.index(min(l))])
    got = [norm([x.ix for x in c.data]) for c in cyc]
    j.true("all cycles, once", len(got) == len(set(got)) and set(got) == want, "%r, expected %r" % (sorted(got), sorted(want)))
    j.true("cycle ids", [c.uid for c in cyc] == list(range(len(cyc))) and all(c.graph is g for c in cyc), "")
    gen = list(g.cycles(asgenerator=True))
    j.true("cycles as generator", [norm([x.ix for x in c.data]) for c in gen] == got, "")
    cap = {}
    for a, x, b, y, inv, u in rows:
        v = cap.setdefault((a, b), [0.0, 0.0])
        v[0] += x; v[1] += y
    results = []
    for c in cyc:
        names = [x.tkn for x in c.data]
        j.true("cycle by id", Cycle.byid(cyc, c.uid) is c, "")
        for token in [None] + names + ["FOO"]:
            k = names.index(token) if token in names else 0
            seq = names[k:] + names[:k]
            hops = [cap[(a, b)] for a, b in zip(seq, seq[1:] + seq[:1])]
            amt, rate = float("inf"), 1.0
            for x, y in hops:
                amt = min(amt, x / rate)
                rate *= y / x
            r, e = call(g.run_arbitrage_cycle, c, token) if token != "FOO" else call(c.run, token=token)
            t.add("runs")
            if not j.true("run", e is None, "%s from %s raised %r" % (names, token, e)):
                continue
            j.eq("amount in", r.amount_in, amt, 1e-9, 0, "%s from %s" % (names, token)); j.eq("amount out", r.amount_out, amt * rate, 1e-9, 0, "%s from %s" % (names, token))
            j.eq("profit", r.profit, amt * rate - amt, 1e-9, 1e-9)
            j.true("token", r.token == seq[0] and r.cycle is c and r.length == len(seq), repr(r.token))
            j.true("start", r.start_ix == k, "start_ix %r for %s in %s" % (r.start_ix, token, names))
            j.eq("r", r.r, rate - 1, 1e-9, 1e-12); j.eq("rpcs", r.rpcs, (rate - 1) / len(seq), 1e-9, 1e-12); j.eq("ppcs", r.ppcs, r.profit / len(seq))
            j.true("tokens", r.tokens() == ", ".join(names), r.tokens())
            if token is None:
                results.append(r)
        v, e = call(g.run_arbitrage_cycle, c, "FOO", allow_any_token=False)
        j.true("token required", isinstance(e, ValueError), "%r" % (v,))
        j.true("running does not record", all(x.state.amount_in_remaining == x.amount_in for x in g.edges) and all(x.state.amount == 0 for x in g.nodes), "")
    # all at once, in all formats
    if cyc and (n < 4 or len(cyc) < 5):
        ref = [(r.cycle.uid, r.token, r.profit, r.amount_in, r.amount_out) for r in results]
        pick = lambda rs: [(r.cycle.uid, r.token, r.profit, r.amount_in, r.amount_out) for r in rs]
        for f in (None, g.ACRET_GEN, g.ACRET_TUPLE, g.ACRET_RAW):
            v, e = call(lambda: list(g.run_arbitrage_cycles(cyc, format=f)))
            j.true("run all", e is None and pick(v) == ref, "%s: %r %r" % (f, v, e))
        raw = g.run_arbitrage_cycles(cyc)
        d, e = call(g.run_arbitrage_cycles, cyc, format=g.ACRET_DICTS)
        t.add("formats")
        if j.true("dicts", e is None, "raised %r" % (e,)):
            j.true("dicts", [(x["uid"], x["token"], x["profit"], x["amount_in"], x["amount_out"]) for x in d] == ref and all("cycle" not in x for x in d)
                   and [(x["r"], x["rpcs"], x["ppcs"], x["length"], x["tokens"]) for x in d] == [(r.r, r.rpcs, r.ppcs, r.length, r.tokens()) for r in results], repr(d))
        if n == 3 and mult == 2 or len(cyc) == 2:
            df, e = call(g.run_arbitrage_cyclesf, raw)
            df2, e2 = call(g.run_arbitrage_cycles, cyc, format=g.ACRET_DF)
            if j.true("frame", e is None and e2 is None, "raised %r %r" % (e, e2)):
                for x in (df, df2):
                    j.true("frame", list(x.index) == [r[0] for r in ref] and [tuple(y) for y in x[["token", "profit", "amount_in", "amount_out"]].values.tolist()] == [r[1:] for r in ref], repr(x.to_dict()))
            df, e = call(g.run_arbitrage_cycles, cyc, format=g.ACRET_AGGRDF)
            if j.true("aggregate", e is None, "raised %r" % (e,)):
                rec = df.reset_index().to_dict(orient="records")
                per = {}
                for r in ref:
                    per.setdefault(r[1], []).append(r)
                j.true("aggregate", len(rec) == len(ref) + len(per), "%d rows" % len(rec))
                for x in rec:
                    rows_ = per.get(x["token"], [])
                    if x["uid"] == "":
                        j.eq("aggregate profit", x["profit"], sum(r[2] for r in rows_) / len(rows_), 1e-9, 1e-12)
                    else:
                        j.true("aggregate row", any(str(r[0]) == x["uid"] and r[2] == x["profit"] for r in rows_), repr(x))
            v, e = call(g.run_arbitrage_cycles, cyc, format=g.ACRET_PRETTYADF)
            j.true("pretty", e is None or isinstance(e, ImportError), "raised %r" % (e,))
        v, e = call(g.run_arbitrage_cycles, cyc, format="rubbish")
        j.true("format", e is not None, "%r" % (v,))
    # shortest paths
    adj = {}
    for a, b in es:
        adj.setdefault(a, set()).add(b)
    for a in range(n):
        dist, todo = {a: 0}, [a]
        while todo:
            x = todo.pop(0)
            for b in adj.get(x, ()):
                if b not in dist:
                    dist[b] = dist[x] + 1
                    todo.append(b)
        for b in range(n):
            p, e = call(g.shortest_path, g.nodes[a], g.nodes[b])
            t.add("paths")
            if b not in dist:
                j.true("no path", e is not None, "%r" % (p,))
                continue
            if j.true("path", e is None, "raised %r" % (e,)):
                ix = [x.ix for x in p.data]
                j.true("shortest path", ix[0] == a and ix[-1] == b and len(ix) == dist[b] + 1 and all((x, y) in es for x, y in zip(ix, ix[1:])), "%r" % ix)


def g03_iter(item, t):
    """closed and open sequences of nodes"""
    seq = item[1]
    j = J(t, ["iter", list(seq)])
    n = len(seq)
    nodes = [Node(x) for x in T]
    vals = [nodes[i] for i in seq]
    for kind in ("nodes", "ints"):
        data = vals if kind == "nodes" else [i * 11 for i in seq]
        c = Cycle(list(data), uid="u")
        p = Path(list(data), uid="u")
        t.add("sequences")
        j.true("len", len(c) == n, "")
        same = lambda a, b: len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
        j.true("path items", same(list(p.items()), data) and same([x for pr in p.pairs() for x in pr], [x for a in zip(data, data[1:]) for x in a]), "")
        for k in range(n):
            rot = data[k:] + data[:k] + [data[k]]
            forms = [dict(start_ix=k), dict(start_val=data[k])] + ([{}] if k == 0 else [])
            for f in forms:
                if f.get("start_val", 1) is None:
                    continue
                j.true("cycle items", same(list(c.items(**f)), rot), "%r: %r" % (f, list(c.items(**f))))
                j.true("cycle pairs", same([x for pr in c.pairs(**f) for x in pr], [x for a in zip(rot, rot[1:]) for x in a]), "%r" % (f,))
                if kind == "nodes":
                    want = ["%s/%s" % (a.tkn, b.tkn) for a, b in zip(rot, rot[1:])]
                    j.true("cycle slashpairs", c.pairs_s(**f) == want, "%r: %r, expected %r" % (f, c.pairs_s(**f), want))
        if kind == "nodes":
            j.true("path slashpairs", p.pairs_s() == ["%s/%s" % (a.tkn, b.tkn) for a, b in zip(data, data[1:])], "")
        v, e = call(c.items, start_ix=0, start_val=data[0])
        j.true("misuse", isinstance(e, ValueError), "")
        v, e = call(c.run)
        j.true("no graph", isinstance(e, AssertionError), "")
        # subcycles: visiting some of the nodes in the same cyclic order
        others = [q for m in range(1, 5) for q in itertools.permutations(range(4), m)]
        cl = []
        for q in others:
            d = Cycle([nodes[i] for i in q] if kind == "nodes" else [i * 11 for i in q])
            sub = all(i in seq for i in q)
            if sub:
                pos = [seq.index(i) for i in q]
                k = pos.index(min(pos))
                pos = pos[k:] + pos[:k]
                sub = pos == sorted(pos)
            j.true("subcycle", d.is_subcycle_of(c) == sub, "%r of %r: %r" % (q, seq, not sub))
            t.add("subcycles")
            cl.append((d, sub))
        f = c.filter_subcycles([d for d, s in cl])
        j.true("filter subcycles", len(f) == sum(s for d, s in cl) and all(any(x is d for x in f) == s for d, s in cl), "")
        j.true("filter subcycles", same(c.filter_subcycles(cl[0][0]), [cl[0][0]] if cl[0][1] else []), "")


# ---------------------------------------------------------------- G04

def g04_items(th):
    prices = [("A", "AB", 2.0), ("A", "AB", 2.2), ("AB", "ABC", 5.0), ("ABC", "A", 0.11), ("ABC", "BC", 0.25), ("BC", "A", 0.35), ("AB", "BC", 1.3), ("ABC", "AB", 0.18)]
    for k in range(1, 7 if th else 5):
        for c in itertools.combinations(range(len(prices)), k):
            for sym in (True, False):
                for how in ((0, 1) if k < 4 or th else (sum(c) % 2,)):
                    yield (tuple(prices[i] for i in c), sym, how)


def g04(item, t):
    rows, sym, how = item
    j = J(t, [[list(r) for r in rows], sym, how])
    g = ArbGraph()
    E = {}
    for k, (a, b, p) in enumerate(rows):
        if sym and how:
            g.add_edges_cpc(CPC.from_pk(p=p, k=100.0, pair="%s/%s" % (a, b), cid=str(k), fee=0, descr=""))
        else:
            g.add_edge_ct(a, b, price=1 / p if k % 2 else p, inverse=bool(k % 2), symmetric=sym, weight=1 + how * k)
        E.setdefault((a, b), []).append(p)
        if sym:
            E.setdefault((b, a), []).append(1 / p)
    toks = [n.tkn for n in g.nodes]
    mean = {k: sum(v) / len(v) for k, v in E.items()}
    t.add("graphs")

    def shortest(a, b):
        """all shortest paths"""
        paths = [[a]]
        for _ in range(len(toks)):
            hit = [p for p in paths if p[-1] == b]
            if hit:
                return hit
            paths = [p + [y] for p in paths for x, y in mean if x == p[-1] and y not in p]
        return []
    mult = lambda p: math.prod(mean[h] for h in zip(p, p[1:]))
    ok = {}
    for a in toks:
        for b in toks:
            sp = shortest(a, b)
            for x, y in ((a, b), (g.n(a), g.n(b)), (a, g.n(b))):
                v, e = call(g.price, x, y)
                t.add("prices")
                if not sp:
                    j.true("no price", e is not None, "%s in %s: %r" % (a, b, v))
                    continue
                if j.true("price", e is None, "%s in %s raised %r" % (a, b, e)):
                    j.true("price", any(abs(v - mult(p)) <= 1e-9 * mult(p) for p in sp), "%s in %s: %r, expected one of %r" % (a, b, v, [mult(p) for p in sp]))
                    ok[(a, b)] = v
                v, e = call(g.price, x, y, with_units=True)
                if j.true("price with units", e is None, "%s in %s raised %r" % (a, b, e)):
                    j.true("price with units", v[0] == ok.get((a, b)) and v[1] == "%s per %s [%s/%s]" % (b, a, a, b), repr(v))
    if len(ok) == len(toks) ** 2:
        tab, e = call(g.pricetable, asdf=False)
        if j.true("pricetable", e is None, "raised %r" % (e,)):
            j.true("pricetable", tab["labels"] == toks and all(abs(tab["data"][i][k] - ok[(a, b)]) < 1e-12 * ok[(a, b)] for i, a in enumerate(toks) for k, b in enumerate(toks)), repr(tab))
        sel = g.nodes[1:]
        tab, e = call(g.pricetable, sel, exclude=[g.nodes[-1]], asdf=False)
        if j.true("pricetable selection", e is None, "raised %r" % (e,)):
            tk = [x.tkn for x in sel[:-1]]
            j.true("pricetable selection", tab["labels"] == tk and all(tab["data"][i][k] == ok[(a, b)] for i, a in enumerate(tk) for k, b in enumerate(tk)), repr(tab))
        if len(rows) < 4:
            df = g.pricetable()
            t.add("frames")
            j.true("pricetable frame", list(df.index) == list(df.columns) == toks and df.index.name == "tknb" and all(abs(df.loc[a, b] - ok[(a, b)]) < 1e-12 * ok[(a, b)] for a in toks for b in toks), repr(df.to_dict()))
    # along any path or cycle
    for c in g.cycles():
        r, e = call(g.ptransport, c)
        names = [x.tkn for x in c.data]
        hops = list(zip(names, names[1:] + names[:1]))
        t.add("transports")
        if j.true("ptransport", e is None, "raised %r" % (e,)):
            j.eq("ptransport", r.multiplier, math.prod(mean[h] for h in hops), 1e-9)
            j.true("ptransport", np.allclose(r.prices, [mean[h] for h in hops]) and list(r.numedges) == [len(E[h]) for h in hops] and r.path is c and r.cycle is c, repr(r))
    for m in (1, 2, 3, 4):
        for q in itertools.permutations(toks, m):
            hops = list(zip(q, q[1:]))
            if all(h in mean for h in hops):
                r = g.ptransport(Path([g.n(x) for x in q]))
                t.add("transports")
                j.eq("ptransport path", r.multiplier, math.prod(mean[h] for h in hops), 1e-9); j.true("ptransport path", len(r.prices) == len(hops), "")
    amt = amount_graph(G2["chain"])
    v, e = call(amt.price, "A", "AB")
    j.true("connection graphs only", isinstance(e, AssertionError), "%r" % (v,))


# ---------------------------------------------------------------- G05

def g05_items(th):
    for a in (0.0, 1.0, -2.5, 1e9, 0.123456, -98765.4321):
        for b in (1.0, 3.0, -2.5, 1e-3):
            yield ("amount", a, b)
    for p in itertools.product(((1.0, 2000.0), (4.0, 0.5), (1e-6, 1e9)), repeat=2):
        for inv in (False, True):
            for kind in ("amt", "conn"):
                yield ("edge", p, inv, kind)
    for h in itertools.product(("set", "reset", "resetkeep", "clear"), repeat=3):
        yield ("tracked", h)
    for kind in ("amount", "node", "edge"):
        yield ("record", kind)


def g05(item, t):
    j = J(t, [item[0]] + [list(x) if isinstance(x, tuple) else x for x in item[1:]])
    X, Y = Node("WETH(1)", ix=1), Node("USDC", ix=2)
    if item[0] == "record":
        # as record, tuple and table row: the fields, restricted and in the order as asked
        kind = item[1]
        if kind == "amount":
            objs, full = [Amount(a, n) for a in (0, 1.5, -2) for n in (X, Y)], lambda o: {"amount": o.amount, "node": {"tkn": o.node.tkn, "ix": o.node.ix}}
        elif kind == "node":
            objs, full = [X, Y, Node("T", ix=0)], lambda o: {"tkn": o.tkn, "ix": o.ix}
        else:
            objs = [Edge(X, 1.5, Y, 3, inverse=inv, uid=u, ix=i) for inv in (False, True) for u, i in (("u", 7), ("v", 0))]
            full = lambda o: {"node_in": {"tkn": "WETH(1)", "ix": 1}, "amount_in": 1.5, "node_out": {"tkn": "USDC", "ix": 2}, "amount_out": 3, "ix": o.ix, "inverse": o.inverse, "uid": o.uid}
        cls = type(objs[0])
        names = list(full(objs[0]))
        sub = [None] + [list(c) for n in range(1, 4) for c in itertools.permutations(names, n)][:120]
        for inc in sub:
            for exc in [None, [], names[:1], names[-1:], names[1:3], ["other"]]:
                kw = {k: v for k, v in (("include", inc), ("exclude", exc)) if v is not None}
                want = [{k: full(o)[k] for k in (inc or names) if k not in (exc or ())} for o in objs]
                for o, w in zip(objs, want):
                    v, e = call(o.asdict, **kw)
                    j.true("record", e is None and v == w and list(v) == list(w), "%s: %r %r, expected %r" % (kw, v, e, w))
                    v, e = call(o.astuple, **kw)
                    j.true("tuple", e is None and v == tuple(w.values()), "%s: %r %r, expected %r" % (kw, v, e, w))
                if not want[0] or (inc and len(inc) > 2) or (inc and sub.index(inc) % 5) or exc not in (None, names[:1]):
                    continue
                for ix in [None] + [k for k in want[0] if k not in ("node", "node_in", "node_out")][:2]:
                    for v, e, w in [call(objs[0].asdf, index=ix, **kw) + (want[:1],)] + [call(cls.l2df, l, index=ix, **kw) + (want,) for l in (objs, iter(objs), tuple(objs))]:
                        if not j.true("table", e is None and hasattr(v, "columns"), "%s: %r %r" % (kw, v, e)):
                            continue
                        t.add("tables")
                        cols = [k for k in w[0] if k != ix]
                        j.true("table", list(v.columns) == cols and [dict(zip(cols, r)) for r in v.values.tolist()] == [{k: x[k] for k in cols} for x in w], "%s: %s, expected %r" % (kw, v.to_dict(), w))
                        if ix is not None:
                            j.true("table index", v.index.name == ix and list(v.index) == [x[ix] for x in w], "%r" % (v.index,))
        v, e = call(objs[0].asdict, include=["nosuchfield"])
        j.true("unknown field", isinstance(e, KeyError), "%r" % (v,))
        d = objs[0].asdict()
        for k in list(d):
            d[k] = None
        j.true("record is a copy", objs[0].asdict() == full(objs[0]), "")
    elif item[0] == "amount":
        _, a, b = item
        p, q, r = Amount(a, X), Amount(b, X), Amount(b, Y)
        t.add("amounts")
        for f, w in ((lambda: p + q, a + b), (lambda: p - q, a - b), (lambda: p * b, a * b), (lambda: b * p, a * b), (lambda: p / b, a / b), (lambda: -p, -a), (lambda: +p, a),
                     (lambda: abs(p), abs(a)), (lambda: round(p), round(a)), *[(lambda n=n: round(p, n), round(a, n)) for n in range(-4, 6)], (lambda: math.floor(p), math.floor(a)), (lambda: math.ceil(p), math.ceil(a)),
                     (lambda: math.trunc(p), math.trunc(a)), (lambda: copy.copy(p), a), (lambda: copy.deepcopy(p), a)):
            v, e = call(f)
            j.true("arithmetic", e is None and isinstance(v, Amount) and v.amount == w and v.node is X and v.tkn is X, "%r %r, expected %r" % (v, e, w))
        j.true("ratio", p / q == a / b, "")
        j.true("compare", (p < q, p <= q, p > q, p >= q, p == q, p == Amount(a, X)) == (a < b, a <= b, a > b, a >= b, a == b, True), "")
        for f in (lambda: p + r, lambda: p - r, lambda: p / r, lambda: p < r, lambda: p <= r, lambda: p > r, lambda: p >= r, lambda: p + 1, lambda: p - 1, lambda: p * q, lambda: p < 1):
            v, e = call(f)
            j.true("mismatch", isinstance(e, ValueError), "%r" % (v,))
        j.true("other token differs", (p == Amount(a, Y)) is False, "")
        j.true("text", str(p) == "%s WETH(1)" % a and "{:.2f}".format(p) == "%.2f WETH(1)" % a, str(p))
        j.true("pretty token", X.tkn_p == "WETH" and Y.tkn_p == "USDC" and str(X) == "WETH(1)(1)", "")
    elif item[0] == "edge":
        _, ((x1, y1), (x2, y2)), inv, kind = item
        t.add("edges")
        if kind == "amt":
            mk = lambda x, y: Edge(X, x, Y, y, inverse=inv, uid="u", ix=7)
        else:
            mk = lambda x, y: Edge.connection_edge(X, Y, price=(x / y if inv else y / x), weight=x, inverse=inv, uid="u", ix=7)
        e1, e2 = mk(x1, y1), mk(x2, y2)
        s = 1 if kind == "amt" else -1
        near = lambda u, v: abs(u - v) <= 1e-12 * abs(v)
        j.true("edge", near(e1.amount_in, s * x1) and near(e1.amount_out, s * y1) and (e1.tkn_in, e1.tkn_out, e1.inverse, e1.uid, e1.ix) == ("WETH(1)", "USDC", inv, "u", 7), repr(e1.asdict()))
        j.eq("price", e1.price(), x1 / y1 if inv else y1 / x1); j.eq("price", e1.price(False), y1 / x1); j.eq("price", e1.price(True), x1 / y1); j.eq("price", e1.p_outperin, y1 / x1)
        j.true("pair", e1.pair() == ("USDC/WETH(1)" if inv else "WETH(1)/USDC") and e1.pair(False) == "WETH(1)/USDC" and e1.pair(True) == "USDC/WETH(1)", e1.pair())
        j.true("convention", e1.convention() == ("WETH(1) per USDC" if inv else "USDC per WETH(1)") and e1.convention_outperin() == "USDC per WETH(1)", e1.convention())
        for nm, e, wx, wy in (("sum", e1 + e2, x1 + x2, y1 + y2), ("sum", sum([e1, e2]), x1 + x2, y1 + y2), ("multiple", e1 * 3, 3 * x1, 3 * y1), ("multiple", 2.5 * e1, 2.5 * x1, 2.5 * y1),
                              ("copy", e1.duplicate(), x1, y1), ("sum of one", sum([e1]), x1, y1)):
            j.true(nm, e is not e1 and e.node_in is X and e.node_out is Y and near(e.amount_in, s * wx) and near(e.amount_out, s * wy) and e.inverse == inv, repr(e.asdict()))
            if kind == "amt":
                j.true(nm + " state", near(e.state.amount_in_remaining, wx), "")
        j.true("copy keeps the id", e1.duplicate().uid == "u" and e1.duplicate().ix is None, "%r" % e1.duplicate().uid)
        for e in (e1.reverse(), e1.R()):
            j.true("reverse", e.node_in is Y and e.node_out is X and near(e.amount_in, s * y1) and near(e.amount_out, s * x1) and e.inverse == (not inv) and e is not e1, repr(e.asdict()))
            j.eq("reverse price", e.price_outperin, x1 / y1); j.eq("reverse price", e.price(), e1.price(), 1e-9)
        for f in (lambda: e1 * 0, lambda: e1 * -1, lambda: e1 + e1.R(), lambda: e1 + 5, lambda: e1 + (Edge.connection_edge(X, Y) if kind == "amt" else Edge(X, 1, Y, 1)),
                  lambda: Edge("X", 1, Y, 1), lambda: Edge(X, 1, "Y", 1)):
            v, e = call(f)
            j.true("misuse", e is not None, "%r" % (v,))
        j.true("identity", e1 == e1 and e1 != mk(x1, y1) and e1.asdict() == mk(x1, y1).asdict(), "")
        for f in (0.0, 0.5, 1.0):
            v = e1.transport(f * x1)
            j.eq("transport", v.amount, f * y1, 1e-9, 1e-15); j.true("transport", v.node is Y, "")
        v, e = call(e1.transport, Amount(0.1 * x1, Y))
        j.true("wrong token", e is not None, "%r" % (v,))
        if kind == "amt":
            j.eq("full transport", e1.transport().amount, y1, 1e-9)
            j.true("state untouched", e1.state.amount_in_remaining == x1 and X.state.amount == 0 and Y.state.amount == 0, "")
        j.true("type check", call(e1.assert_edgetype, e1.edgetype)[1] is None and isinstance(call(e1.assert_edgetype, "foo")[1], ValueError), "")
    else:
        f = TrackedStateFloat(5)
        hist, val = [5], 5
        for k, op in enumerate(item[1]):
            if op == "set":
                f.set(k + 10); val = k + 10; hist = hist + [val]
            elif op == "reset":
                j.true("returns itself", f.reset(k + 20) is f, ""); val = k + 20; hist = [val]
            elif op == "resetkeep":
                f.reset(k + 30, clear_history=False); val = k + 30; hist = hist + [val]
            else:
                f.reset(); hist = [val]
            t.add("tracked")
            j.true("tracked", f.value == val and f.history == hist and str(f) == str(val), "%r %r, expected %r %r" % (f.value, f.history, val, hist))


# ---------------------------------------------------------------- driver

BOUNDS = {
    "G01": "all amount-type multigraphs on 3 tokens with up to 2 edges, every third with 3 (thorough: all with 3, every seventh with 4) of 12 edge kinds, built 4 ways; all connection-type multigraphs with up to 2 (3) of 8 connections; graphs of all sets of up to 3 curves and their optimization results",
    "G02": "all histories of up to 3 (thorough: 4) operations over graphs with parallel, chained, single and tiny edges at 3 levels of funding; operations are transports over edges and pairs (recorded or not, within and beyond capacity and funds), funding and resets",
    "G03": "all directed graphs on 2 and 3 tokens with single and parallel edges, all directed graphs on 4 tokens up to renaming (thorough: all 4096); all cycles from all start tokens, all formats; all node sequences up to length 4 and all pairs of cycles",
    "G04": "all sets of up to 4 (thorough: 6) of 8 connections over 4 tokens, symmetric or one-way, from prices or curves; all token pairs, paths and cycles",
    "G05": "amounts, edges of both types in both conventions, tracked values over small grids; records, tuples and tables of all selections of up to 3 fields",
}
FN = {"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05}
ITEMS = {"G01": g01_items, "G02": g02_items, "G03": g03_items, "G04": g04_items, "G05": g05_items}


def check(pid, tier):
    it = list(ITEMS[pid](tier == "thorough"))

    def work(chunk, t):
        for x in chunk:
            core.arm()
            FN[pid](x, t)
        t.sample(repr(chunk[0]))
    tally = core.run_tasks(work, core.stripes(it, 64))
    st = len(tally.sets.get("states", ())) or len(it)
    return tally, dict(states=st, transitions=tally.n.get("transitions") or tally.n["comparisons"], exhaustive=True, bounds=BOUNDS[pid])


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def replay(pid, case, t):
    c = case["case"]
    if pid == "G02":
        h = [tuple(o) for o in c[2]]
        for k in range(1, len(h) + 1):
            g02_build(c[0], c[1], h[:k], J(t, c), t, True)
    else:
        FN[pid](_tup(c), t)
