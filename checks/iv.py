"""Exact model of intervals shared by the interval checks."""
import math
from fractions import Fraction as F
import roughpy as rp

CLOPEN = rp.IntervalType.Clopen
OPENCL = rp.IntervalType(1)
TYPES = [CLOPEN, OPENCL]
INF = math.inf


def is_clopen(t):
    return t == CLOPEN


class Set:
    """Half open interval of exact numbers."""

    def __init__(self, lo, hi, t):
        self.lo, self.hi, self.t = lo, hi, t

    def has(self, x):
        return (self.lo <= x < self.hi) if is_clopen(self.t) else (self.lo < x <= self.hi)

    def __repr__(self):
        return ("[%s,%s)" if is_clopen(self.t) else "(%s,%s]") % (float(self.lo), float(self.hi))


def subset(a, b):
    """a subset of b, a not empty"""
    if is_clopen(a.t) == is_clopen(b.t):
        return b.lo <= a.lo and a.hi <= b.hi
    if is_clopen(b.t):          # a is (lo,hi]: needs hi in b
        return b.lo <= a.lo and a.hi < b.hi
    return b.lo < a.lo and a.hi <= b.hi


def meets(a, b):
    """a and b, both not empty, share a point"""
    lo, hi = max(a.lo, b.lo), min(a.hi, b.hi)
    if lo < hi:
        return True
    return lo == hi and a.has(lo) and b.has(lo)


def dfloor(x, n):
    """largest multiple of 2^-n at most x"""
    s = F(2) ** n
    return F(math.floor(x * s)) / s


def dceil(x, n):
    s = F(2) ** n
    return F(math.ceil(x * s)) / s


def rnd(x, n, t):
    """x rounded onto the grid by the convention"""
    return dfloor(x, n) if is_clopen(t) else dceil(x, n)


def dissect(lo, hi, n):
    """Coarsest aligned dyadic tiling of [lo,hi), end points on the grid 2^-n; left to right, (lo, power)."""
    res = []
    pos = lo
    while pos < hi:
        p = n
        while True:
            s = F(2) ** (p - 1)
            if (pos * s).denominator == 1 and pos + 1 / s <= hi:
                p -= 1
            else:
                break
        res.append((pos, p))
        pos += F(1) / F(2) ** p
    return res


def rpoint(rng):
    """A float: on and off grids, negative, tiny, huge, one ulp away from something nice."""
    s = rng.random()
    if s < 0.3:
        x = math.ldexp(rng.randint(-40, 40), -rng.randint(0, 5))
    elif s < 0.5:
        x = rng.uniform(-3, 3)
    elif s < 0.6:
        x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, 6)
    elif s < 0.7:
        x = float(rng.randint(-1000, 1000))
    elif s < 0.85:
        x = math.nextafter(math.ldexp(rng.randint(-16, 16), -rng.randint(0, 4)), rng.choice([-INF, INF]))
    else:
        x = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 2.0 ** -30, -2.0 ** -30, 1e-300, 5e-324, 0.5])
    return x


def didict(d):
    """(lo, power) of a DyadicInterval read through its dyadic end points"""
    return F(d.dyadic_inf().k) / F(2) ** d.dyadic_inf().n, d.dyadic_inf().n
