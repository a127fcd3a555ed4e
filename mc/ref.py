"""Boring reference mathematics, written from the definitions, sharing no code with /repo.

A *curve* sells token T against token O.  Parameters: y (tokens of T on the curve),
z (capacity, y<=z), pa>=pb>0 prices in T per O (pa: price when full, pb: price when empty).
Marginal price at y:  m(y) = (B + A*y/z)^2 with B=sqrt(pb), A=sqrt(pa)-sqrt(pb).
"""
from math import sqrt, inf


class Curve:
    __slots__ = ("y", "z", "pa", "pb")

    def __init__(self, y, z, pa, pb):
        self.y, self.z, self.pa, self.pb = float(y), float(z), float(pa), float(pb)

    def copy(self):
        return Curve(self.y, self.z, self.pa, self.pb)

    @property
    def B(self):
        return sqrt(self.pb)

    @property
    def A(self):
        return sqrt(self.pa) - sqrt(self.pb)

    def sqm(self, y=None):
        """square root of the marginal price at y"""
        y = self.y if y is None else y
        return self.B + (self.A * y / self.z if self.z else self.A)

    def marg(self, y=None):
        return self.sqm(y) ** 2

    def dx_for_dy(self, dy):
        """O tokens to be paid for taking dy of T out of the curve: integral of dy/m"""
        # integral_{y-dy}^{y} du / (B + A u/z)^2 = dy / (sqm(y) * sqm(y-dy))
        return dy / (self.sqm(self.y) * self.sqm(self.y - dy))

    def dy_for_dx(self, dx):
        """T tokens obtained for paying dx of O (no capacity check)"""
        s = self.sqm()
        if self.z == 0:
            return 0.0
        return dx * s * s / (1 + dx * s * self.A / self.z)

    def max_dx(self):
        return self.dx_for_dy(self.y) if self.y > 0 else 0.0

    def out_at(self, sm):
        """amount this curve gives out when its sqrt marginal price is pushed down to sm"""
        if self.y <= 0 or self.sqm() <= sm:
            return 0.0
        if self.B >= sm:
            return self.y
        return min(self.y, max(0.0, self.y - self.z * (sm - self.B) / self.A))


def optimum(curves, amount, by_target, iters=200):
    """best split of `amount` over curves.  Returns (outs, ins) lists; amount must be feasible.

    The optimum is characterised by one common marginal price (water filling).  We bisect on the
    square root of that price; flat curves (A==0) at the critical price take what is left over."""
    hi = max(c.sqm() for c in curves) * (1 + 1e-12)
    lo = min(c.B for c in curves) * (1 - 1e-12)

    def total(sm):
        outs = [c.out_at(sm) for c in curves]
        if by_target:
            return sum(outs), outs
        return sum(c.dx_for_dy(o) for c, o in zip(curves, outs) if o > 0), outs

    if total(lo)[0] <= amount:
        outs = total(lo)[1]
        return outs, [c.dx_for_dy(o) if o > 0 else 0.0 for c, o in zip(curves, outs)]
    for _ in range(iters):
        mid = (lo + hi) / 2
        if total(mid)[0] > amount:
            lo = mid
        else:
            hi = mid
        if mid == lo == hi:
            break
    t_hi, o_hi = total(hi)
    t_lo, o_lo = total(lo)
    outs = list(o_hi)
    # distribute the remainder proportionally between the two sides of the (tiny) bracket
    if t_lo > t_hi:
        w = (amount - t_hi) / (t_lo - t_hi)
        outs = [a + (b - a) * w for a, b in zip(o_hi, o_lo)]
    return outs, [c.dx_for_dy(o) if o > 0 else 0.0 for c, o in zip(curves, outs)]


def close(a, b, rel=1e-7, abs_=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
