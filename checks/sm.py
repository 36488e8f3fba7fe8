"""Reference model of streams given by Lie increments at times."""
import math, random
from fractions import Fraction as F
import roughpy as rp
import ref, rpx

INF = rp.IntervalType.Clopen


def flo(x, r):
    """x rounded down to a multiple of 2^-r."""
    s = F(2) ** r
    return F(math.floor(F(x) * s)) / s


def cei(x, r):
    s = F(2) ** r
    return F(math.ceil(F(x) * s)) / s


def auto_res(default, length):
    """Resolution of a query that does not state one."""
    _, e = math.frexp(float(length))
    return max(default, -min(0, e - 1) + 2)


class Model:
    """incs: list of (time, {hall: coeff}) sorted by time; support: half-open, or None for everywhere."""

    def __init__(self, width, kind, incs, res, support=None, ends=None):
        self.ends = ends            # effective support: a query reaching one of its ends takes in everything up to it
        self.width, self.kind, self.res = width, kind, res
        self.incs = sorted(incs, key=lambda x: x[0])
        self.support = support

    def window(self, a, b, r):
        """Ends of the query after confinement to the support and rounding."""
        if self.support is not None:
            a, b = max(F(a), F(self.support[0])), min(F(b), F(self.support[1]))
            if a >= b:
                return None
        lo, hi = flo(a, r), flo(b, r)
        if a >= b or (self.ends is not None and (F(b) <= F(self.ends[0]) or F(a) >= F(self.ends[1]))):
            return None
        if self.ends is not None:
            if F(a) <= F(self.ends[0]):
                lo = min(lo, flo(self.ends[0], self.res), flo(self.ends[0], r))
            if F(b) >= F(self.ends[1]):
                hi = max(hi, cei(self.ends[1], self.res), cei(self.ends[1], r))
        return lo, hi

    def covered(self, a, b, r):
        w = self.window(a, b, r)
        if w is None:
            return []
        return [l for t, l in self.incs if w[0] <= flo(t, self.res) < w[1]] if r >= self.res else \
               [l for t, l in self.incs if w[0] <= F(t) < w[1]]

    def sig(self, a, b, r, depth):
        return product(self.covered(a, b, r), depth)


def product(lies, depth):
    """Ordered product of the exponentials of {hall: coeff}, as {word: coeff}."""
    t = {(): F(1)}
    for l in lies:
        if l:
            t = ref.mul(t, ref.exp(ref.l2t(l), depth), depth)
    return t


def rand_lie(rng, width, depth, kind, letters=False):
    """An increment: mostly letters, sometimes with brackets."""
    style = {"R": rng.choice("iq"), "P": None, "D": "d", "S": "i"}[kind]
    l = rpx.rlie(rng, width, depth, kind, style, fill=rng.choice([1, 2, width, width + 1]), maxdeg=1 if letters else None)
    return l


def times(rng, n, span=8, grid=None):
    """Sorted times with ties, grid points and points off every grid."""
    out = []
    for _ in range(n):
        s = rng.random()
        if out and s < 0.15:
            t = rng.choice(out)
        elif s < 0.5:
            t = rng.randint(-span, span) / rng.choice([1, 2, 4, 8])
        elif s < 0.6 and out:
            t = math.nextafter(rng.choice(out), rng.choice([-1e9, 1e9]))
        elif s < 0.8:
            t = rng.uniform(-span, span)
        else:
            t = math.nextafter(rng.randint(-span, span) / 4, rng.choice([-1e9, 1e9]))
        out.append(float(t))
    return sorted(x if abs(x) > 1e-9 else 0.0 for x in out)


def rquery(rng, ts, span=8, res=3):
    """End points of a query near, across or away from the data."""
    pts = []
    for _ in range(2):
        s = rng.random()
        if s < 0.3:
            x = rng.randint(-span - 3, span + 3) / rng.choice([1, 2, 4, 8])
        elif s < 0.5:
            x = rng.uniform(-span - 3, span + 3)
        elif s < 0.7 and ts:
            x = rng.choice(ts)
        elif s < 0.8 and ts:
            x = math.nextafter(rng.choice(ts), rng.choice([-1e9, 1e9]))
        elif s < 0.9 and ts:
            x = float(flo(rng.choice(ts), res) + F(rng.randint(-1, 1)) / F(2) ** res)
        else:
            x = rng.choice([-100.0, 100.0, 0.0, 33.3])
        pts.append(float(x) if abs(x) > 1e-300 else 0.0)
    a, b = sorted(pts)
    return a, b


def bound(lies, depth, kind):
    if kind in rpx.EXACT:
        return 1.0
    return min(1e30, (1 + sum(sum(abs(c) for c in l.values()) for l in lies)) ** depth * (16 + 4 * len(lies)))


def same_sig(T, want, kind, scale, ops=256):
    got = rpx.read_ft(T, kind)
    return rpx.same(got, want, kind, scale, ops), got


def same_log(L, want_t, kind, scale, ops=1024):
    got = ref.l2t(rpx.read_lie(L, kind))
    return rpx.same(got, want_t, kind, scale, ops), got
