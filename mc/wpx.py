"""W01, W02: the formula collection of the white paper and the library it is kept in.  Both need sympy, which the
interpreter of the simulator lacks, so mc/wp/worker.py runs them; the curve of the same pools is compared here."""
import json
import math
import os
import shutil
import subprocess

from . import core
from .core import call

HERE = os.path.dirname(os.path.abspath(__file__))
PARTS = 8


def python():
    return shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"


def worker(pid, tier, k, n, only=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([python(), os.path.join(HERE, "wp", "worker.py"), core.REPO, pid, tier, str(k), str(n)] + ([json.dumps(only)] if only is not None else []),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=3000)
    try:
        return json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return {"n": {}, "viol": [], "points": [], "errors": ["worker %s: %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-600:])]}


def merge(d, t):
    for k, n in d["n"].items():
        t.add(k, n)
    for key, msg, rep in d["viol"]:
        t.violation(key, msg, rep)
    t.errors.extend(d["errors"])
    for case, v in d["points"]:
        with core.quiet():
            curve(case, v, t)


def curve(case, v, t):
    """the same pool as an order: property by property what the equations say"""
    from carbon.carbon_order_ui import CarbonOrderUI
    case = ["curve"] + list(case)

    def same(key, a, b, scale=0.0, rel=1e-6):
        t.add("comparisons")
        a, e = call(a)
        ok = e is None and a is not None and isinstance(a, (int, float)) and abs(a - b) <= rel * max(abs(a), abs(b)) + rel * scale
        if not ok:
            t.violation("curve", "%s of the order is %r, by the white paper's equation %r; %s" % (key, a if e is None else e, b, case), {"case": case})
    o, e = call(CarbonOrderUI.from_prices, "ETH/USDC", "USDC", pa=v["P_y"], pb=v["P_x"], yint=v["y_{int}"], y=min(v["y"], v["y_{int}"]))
    if e is not None:
        return t.violation("curve", "no order: %r; %s" % (e, case), {"case": case})
    xi, yi, q = v["x_{int}"], v["y_{int}"], 1e-6
    if v["Q"] > 0.99:
        q = 1e-4            # 1 - Q is what is left of a difference of square roots
    for key, b in (("B", v["B"]), ("S", v["S"]), ("Q", v["Q"]), ("Gamma", v["\\Gamma"]), ("x0", v["x_0"]), ("y0", v["y_0"]), ("xint", xi), ("yint", yi),
                      ("xasym", v["x_{asym}"]), ("yasym", v["y_{asym}"]), ("kappa", v["\\kappa"]), ("p0", v["P_0"]), ("px", v["P_x"]), ("py", v["P_y"]),
                      ("p_marg", v["P_{marg}"])):
        same(key, lambda: getattr(o, key), b, 0, q)
    same("y at x", lambda: o.yfromx_f(v["x"], checkbounds=False), v["y"], yi, q)
    same("x at y", lambda: o.xfromy_f(v["y"], checkbounds=False), v["x"], xi, q)
    same("dy from dx", lambda: o.dyfromdx_f(v["\\Delta{x}"], checkbounds=False), -v["\\Delta{y}"], yi, q)
    same("dx from dy", lambda: o.dxfromdy_f(-v["\\Delta{y}"], checkbounds=False), v["\\Delta{x}"], xi, q)
    same("y from p", lambda: o.yfromp_f(v["P_{marg}"], checkbounds=False), v["y"], yi, q)
    if abs(v["\\Delta{x}"]) > 1e-6 * xi:
        same("effective price", lambda: o.p_eff_f(-v["\\Delta{y}"], checkbounds=False), -v["\\Delta{y}"] / v["\\Delta{x}"], 0, q * 10)


BOUNDS = {
    "W01": "all 46 equations on every pool of 4 (thorough: 7) prices x 4 (7) range widths x 3 (6) sizes, each at 6 positions with 5 (7) trades, in 40 digits; every variable of every equation perturbed at the inner positions; the same pools as orders",
    "W02": "all histories of 14 operations up to depth 4 (quick) or 5 (thorough) from 2 default namespaces and 2 error modes, 23 keys read after every step; tag lists of up to 4 of 5 words; 6 equations with 5 scalars and each other under 5 operators"}


def check(pid, tier):
    parts = PARTS if tier == "quick" else PARTS * 4

    def work(chunk, t):
        for k in chunk:
            core.disarm()
            merge(worker(pid, tier, k, parts), t)
        t.sample("part %s of %d" % (chunk[0], parts))
    tally = core.run_tasks(work, [[k] for k in range(parts)])
    n = tally.n
    return tally, dict(states=n.get("points", 0) if pid == "W01" else n.get("states", 0), transitions=n.get("comparisons", 0) if pid == "W01" else n.get("histories", 0), exhaustive=True, bounds=BOUNDS[pid])


def replay(pid, case, t):
    core.disarm()
    c = case["case"]
    for k in range(PARTS):
        merge(worker(pid, "quick", k, PARTS), t)
    t.viol = [v for v in t.viol if v[2].get("case") == c] or t.viol
