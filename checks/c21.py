"""C21 dyadic dissection tiles exactly the rounded interval."""
import math
from fractions import Fraction as F
import roughpy as rp
from iv import CLOPEN, OPENCL, TYPES, INF, dfloor, dceil, rnd, dissect, rpoint, is_clopen

RULE = ("random intervals (tiny, huge, negative, straddling zero, on and off the grid, one ulp off it, dyadic, real and partition objects) dissected "
        "at resolutions -4..24 under both conventions; the returned list compared element by element with the coarsest aligned tiling of the "
        "exactly rounded interval; non-trivial: the tiling is not empty; a native harness repeats this for both conventions")
ASSUMPTIONS = ["intervals whose rounded end points do not fit the multiplier may raise"]
MIN_CASES = 400
SCALE = 6


def mk(c, rng):
    s = rng.random()
    n = rng.choice([0, 1, 2, 3, 5, 8, 10, 12, 20, 24, -1, -2, -4])
    if s < 0.55:
        a, b = rpoint(rng), rpoint(rng)
    elif s < 0.75:      # short intervals near grid points
        g = math.ldexp(rng.randint(-30, 30), -max(n, 0))
        a = g + rng.choice([0, 0, 1, -1]) * math.ldexp(1, -n - rng.randint(1, 6))
        b = a + rng.choice([1, 2, 3]) * math.ldexp(1, -n - rng.randint(0, 3))
    else:               # aligned blocks
        m = rng.randint(-2, max(n, 0) + 1)
        a = math.ldexp(rng.randint(-20, 20), -m)
        b = a + math.ldexp(rng.randint(1, 9), -m)
    a, b = min(a, b), max(a, b)
    return a, b, n


def tile(c):
    rng = c.rng
    a, b, n = mk(c, rng)
    if (b - a) * 2.0 ** n > 2 ** 40 or max(abs(a), abs(b)) * 2.0 ** n > 2 ** 60:
        n = 2
    if n < 0 and min([abs(x) for x in (a, b) if x] or [1]) < 1e-290:
        n = -n          # the scaled end point would not be representable
    t = rng.choice(TYPES)
    how = rng.choice(["real", "real", "realtype", "pair", "default", "partition", "dyadic"])
    if how == "pair":
        got = rp.DyadicInterval.to_dyadic_intervals(a, b, n, t)
    elif how == "default":
        t = CLOPEN
        got = rp.DyadicInterval.to_dyadic_intervals(rp.RealInterval(a, b), n)
    elif how == "realtype":
        got = rp.DyadicInterval.to_dyadic_intervals(rp.RealInterval(a, b, rng.choice(TYPES)), n, t)
    elif how == "partition":
        p = rp.Partition(rp.RealInterval(a, b), [(a + b) / 2])
        got = rp.DyadicInterval.to_dyadic_intervals(p, resolution=n, interval_type=t)
    elif how == "dyadic":
        m = rng.randint(-2, max(n, 0) + 3)
        d = rp.DyadicInterval(rng.randint(-9, 9), m)
        a, b = d.inf(), d.sup()
        got = rp.DyadicInterval.to_dyadic_intervals(d, n, t)
    else:
        got = rp.DyadicInterval.to_dyadic_intervals(rp.RealInterval(a, b, t), n, t)
    lo, hi = rnd(F(a), n, t), rnd(F(b), n, t)
    want = dissect(lo, hi, n)
    if not is_clopen(t):
        # coarsest tiling is the same for both conventions, only the intervals' type differs
        pass
    c.describe("tile %s %r %r res %d %s" % (how, a, b, n, "clopen" if is_clopen(t) else "opencl"), nontrivial=bool(want))
    g = []
    for d in got:
        x, y = d.dyadic_inf(), d.dyadic_sup()
        vx, vy = F(x.k) / F(2) ** x.n, F(y.k) / F(2) ** y.n
        c.check(d.interval_type == t, "tile.type", lambda: "%s in the dissection of %s" % (d, c.desc))
        c.check(vy - vx == F(1) / F(2) ** x.n, "tile.length", lambda: "%s" % d)
        c.check(F(d.inf()) == vx and F(d.sup()) == vy, "tile.ends", lambda: "%s" % d)
        g.append((vx, x.n))
    c.check(g == want, "tile.exact", lambda: "%s gave %s want %s" % (c.desc, [("%s+2^-%d" % (float(p), q)) for p, q in g[:12]], [("%s+2^-%d" % (float(p), q)) for p, q in want[:12]]))


def split(c):
    """dissections of adjacent intervals join: the rounded pieces are disjoint and cover the whole"""
    rng = c.rng
    pts = sorted({rpoint(rng) for _ in range(rng.randint(2, 5))})
    pts = [p for p in pts if abs(p) < 1e6]
    if len(pts) < 2:
        return
    n = rng.choice([0, 1, 3, 6, 10])
    t = rng.choice(TYPES)
    c.describe("split %s res %d" % (pts, n))
    pos = rnd(F(pts[0]), n, t)
    for a, b in zip(pts, pts[1:]):
        for d in rp.DyadicInterval.to_dyadic_intervals(a, b, n, t):
            x = d.dyadic_inf()
            vx = F(x.k) / F(2) ** x.n
            if not c.check(vx == pos, "split.join", lambda: "%s starts at %s, the previous piece ended at %s (%s)" % (d, float(vx), float(pos), c.desc)):
                return
            pos = vx + F(1) / F(2) ** x.n
    c.check(pos == rnd(F(pts[-1]), n, t), "split.end", lambda: "pieces end at %s (%s)" % (float(pos), c.desc))


def families(tier):
    q = 1 if tier == "quick" else 40
    return [("tile", tile, 2400 * q), ("split", split, 600 * q)]


def programs(tier):
    m = 1 if tier == "quick" else 40
    return [("intervals", "asan", [("native_tile", 8000 * m)], 4)]
