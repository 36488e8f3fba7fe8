"""C18 restriction and support."""
import math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("chains of up to four restrictions (overlapping, nested, disjoint, touching, sharing ends with the support) of streams of every kind, queried with and without a resolution; "
        "each answer compared bit for bit with the original's over the intersection, reported supports with the intersection, the original re-asked afterwards; non-trivial: a restricted query has a non-unit answer")
ASSUMPTIONS = ["intersections are of half-open [a, b) intervals"]
MIN_CASES = 150
SCALE = 2


def interval(rng, a, b):
    ln = max(b - a, 1.0)
    s = rng.random()
    if s < .25:
        n = rng.choice([-2, -1, 0, 1, 2])
        return rp.DyadicInterval(rp.Dyadic(math.floor(rng.uniform(a, b) * 2.0 ** n), n))
    pts = [a, b, a - 1, b + 1, (a + b) / 2, math.floor(a) + 0.0, math.ceil(b) + 0.0, rng.uniform(a, b), rng.uniform(a, b), rng.uniform(a - ln, b + ln), a - 100, b + 100]
    x, y = rng.choice(pts), rng.choice(pts)
    if x == y:
        y = x + rng.choice([.5, 1.0, ln])
    return rp.RealInterval(min(x, y), max(x, y))


def read(m, what, v, num):
    return rpx.read_ft(v, num) if what == "signature" else rpx.read_lie(v, num)


def restrict(c):
    rng = c.rng
    m = kinds.pick(c, simple=rng.random() < .8)
    base = m.s
    a, b = m.span
    if m.dynamic:
        base.log_signature(rp.RealInterval(math.floor(a) - 1.0, math.ceil(b) + 1.0), m.res + 1)
    c.describe("%s %s w%d d%d %s" % (m.kind, m.num, m.w, m.d, m.text[:100]), nontrivial=False)
    lo, hi = base.support.inf(), base.support.sup()
    before = []
    chain = [(base, lo, hi)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        s, lo, hi = rng.choice(chain)
        iv = interval(rng, a, b)
        t = c.call("restrict", s.restrict, iv)
        lo, hi = max(lo, iv.inf()), min(hi, iv.sup())
        c.describe("restrict %s" % iv, nontrivial=False)
        if lo < hi:
            c.check((t.support.inf(), t.support.sup()) == (lo, hi), "support", lambda: "%s, expected [%r, %r)" % (t.support, lo, hi))
        else:
            c.check(t.support.inf() == t.support.sup(), "support.empty", lambda: "%s for a restriction to nothing" % t.support)
        c.check(t.width == base.width and t.ctx == base.ctx and t.dtype == base.dtype and t.resolution == base.resolution, "attributes",
                lambda: "width %s ctx %s dtype %s resolution %s" % (t.width, t.ctx, t.dtype, t.resolution))
        chain.append((t, lo, hi))
    for _ in range(8):
        s, lo, hi = rng.choice(chain)
        iv = interval(rng, a, b) if rng.random() < .9 else None
        x, y = (lo, hi) if iv is None else (max(lo, iv.inf()), min(hi, iv.sup()))
        if iv is None and (math.isinf(lo) or math.isinf(hi)):
            continue
        r = rng.choice([None, m.res, m.res + 1, 0, 2, max(m.res - 1, 0)])
        if x < y and (y - x) * 2.0 ** max(r or 0, m.res + 1) > 600:
            continue
        if m.dynamic:
            r = m.res + 1
        what = rng.choice(["signature", "log_signature"])
        kw = {} if r is None else {"resolution": r}
        d = m.d
        if rng.random() < .2 and not m.dynamic:
            d = rng.randint(1, m.d)
            kw["depth"] = d
        v = getattr(s, what)(*([] if iv is None else [iv]), **kw)
        got = read(m, what, v, m.num)
        if x < y:
            w = getattr(base, what)(rp.RealInterval(x, y), **kw)
            want = read(m, what, w, m.num)
        else:
            want = {(): 1} if what == "signature" else {}
        c.describe("%s(%s, %s)" % (what, iv, r), nontrivial=s is not base and bool([k for k in got if k != ()]))
        c.check(got == want, "value" if x < y else "disjoint", lambda: "%s(%s, %s) on support [%r,%r): %s expected %s" % (what, iv, kw, lo, hi, str(got)[:300], str(want)[:300]))
    c.check(base.support.inf() == chain[0][1] and base.support.sup() == chain[0][2], "original.support", lambda: "%s" % base.support)


def untouched(c):
    """The original answers as a stream that was never restricted."""
    rng = c.rng
    m = kinds.pick(c, dynamic=False)
    while m.rebuild is None:
        m = kinds.pick(c, dynamic=False)
    a, b = m.span
    f = m.rebuild()
    keep = [m.s.restrict(interval(rng, a, b)) for _ in range(3)]
    for k in keep:
        k.restrict(interval(rng, a, b))
        if k.support.inf() < k.support.sup():
            k.log_signature(interval(rng, a, b), 1)
    c.describe("%s %s" % (m.kind, m.text[:150]))
    for _ in range(3):
        iv = interval(rng, a, b)
        if (min(iv.sup(), b) - max(iv.inf(), a)) * 2.0 ** 3 > 400:
            continue
        g, w = rpx.read_ft(m.s.signature(iv, 3), m.num), rpx.read_ft(f.signature(iv, 3), m.num)
        c.check(g == w, "original.value", lambda: "%s: %s" % (iv, rpx.diff(g, w)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("restrict", restrict, 1200 * k), ("untouched", untouched, 300 * k)]
