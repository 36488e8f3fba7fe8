"""C14 piecewise abelian streams and simplification."""
import math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("piecewise streams of disjoint pieces (adjacent, with gaps, shuffled order, dyadic and other lengths, every coefficient type) and simplifications of every other kind of stream, "
        "queried inside, across and outside the pieces at several resolutions; compared with the product of exponentials of the covered fractions; "
        "simplified streams compared with the original on every cell and every union of consecutive cells; non-trivial: a piece is partly or wholly covered")
ASSUMPTIONS = ["pieces do not overlap", "partition points lie on the grid of the simplification's resolution", "a query reaching an end of the support takes in everything up to that end"]
MIN_CASES = 150
SCALE = 2


def covered(pieces, lo, hi):
    out = []
    for (p, q), l in sorted(pieces, key=lambda x: x[0][0]):
        x, y = max(F(p), F(lo)), min(F(q), F(hi))
        if x < y:
            f = (y - x) / (F(q) - F(p))
            out.append({k: v * f for k, v in l.items()})
    return out


def expect(c, m, s, pieces, supp, key):
    rng = c.rng
    a, b = supp
    for _ in range(5):
        form = rng.choice(["real", "real", "dyadic", "piece", "pieces"])
        if form == "dyadic":
            n = rng.choice([-1, 0, 1, 2, 3, 4])
            iv = rp.DyadicInterval(rp.Dyadic(math.floor(rng.uniform(a - 1, b + 1) * 2.0 ** n), n))
            x, y = iv.inf(), iv.sup()
        elif form == "piece":
            x, y = rng.choice(pieces)[0]
            iv = rp.RealInterval(x, y)
        elif form == "pieces":
            ps = sorted(p for p, _ in pieces)
            i, j = sorted([rng.randrange(len(ps)), rng.randrange(len(ps))])
            x, y = ps[i][0], ps[j][1]
            iv = rp.RealInterval(x, y)
        else:
            x, y = sm.rquery(rng, [t for p, _ in pieces for t in p], span=5)
            iv = rp.RealInterval(x, y)
        r = rng.choice([None, s.resolution, s.resolution + 1, 0, 2, 5, 8])
        kw = {} if r is None else {"resolution": r}
        if r is None:
            lo, hi = max(x, a), min(y, b)
            r = sm.auto_res(s.resolution, hi - lo) if lo < hi else 0
        if r > 200:
            continue
        while (min(y, b) - max(x, a)) * 2.0 ** r > 2000:
            r -= 1
            kw = {"resolution": r}
        mod = sm.Model(m.w, m.num, [], s.resolution, ends=supp)
        win = mod.window(x, y, r)
        lies = [] if win is None else covered(pieces, *win)
        d = m.d if rng.random() < .8 else rng.randint(1, m.d)
        if d != m.d:
            kw["depth"] = d
        text = "%s [%r,%r) r=%d" % (form, x, y, r)
        c.describe(text, nontrivial=bool(lies))
        want = sm.product(lies, d)
        S, L = s.signature(iv, **kw), s.log_signature(iv, **kw)
        # whatever the true lengths, the fraction is a double
        num = m.num if not m.approx else ("D" if m.num in "RP" else m.num)
        scale = sm.bound(lies, d, num) if m.num != "P" else 1.0
        g = rpx.read_ft(S, m.num)
        c.check(rpx.same(g, want, num, scale, 4096), key + ".signature", lambda: text + ": " + rpx.diff(g, want))
        h = ref.l2t(rpx.read_lie(L, m.num))
        wl = ref.log(want, d)
        c.check(rpx.same(h, wl, num, scale, 4096), key + ".log_signature", lambda: text + ": " + rpx.diff(h, wl))


def pieces(c):
    m = kinds.pick(c, which=kinds.pa)
    supp = (m.s.support.inf(), m.s.support.sup())
    c.check(supp == tuple(m.span), "support", lambda: "support %s of pieces over %s" % (supp, m.span))
    c.describe("%s w%d d%d %s" % (m.num, m.w, m.d, m.text[:200]), nontrivial=False)
    expect(c, m, m.s, m.pieces, supp, "pieces")


def simplify(c):
    rng = c.rng
    m = kinds.pick(c, simple=rng.random() < .7)
    base = m.s
    r = rng.choice([0, 1, 2, 3])
    a, b = math.floor(m.span[0]) - rng.choice([0.0, 1.0, 0.5]), math.ceil(m.span[1]) + rng.choice([0.0, 1.0])
    if r == 0:
        a = math.floor(a) + 0.0
    n = int((b - a) * 2 ** r)
    if n > 100 or n < 2:
        return
    pts = sorted({a + k * 2.0 ** -r for k in (rng.randint(1, n - 1) for _ in range(rng.choice([0, 1, 2, 4, 8])))})
    d = m.d if rng.random() < .7 else rng.randint(1, m.d)
    kw = {}
    if d != m.d:
        kw["depth"] = d
        if rng.random() < .5:
            kw = {"ctx": rpx.ctx(m.w, d, m.num)}
    part = rp.Partition(rp.RealInterval(a, b), pts)
    if m.dynamic:
        base.log_signature(rp.RealInterval(math.floor(a) - 1.0, math.ceil(b) + 1.0), r)
    s = c.call("simplify", base.simplify, part, resolution=r, **kw)
    ends = [a] + pts + [b]
    cells = list(zip(ends, ends[1:]))
    c.describe("simplify %s %s w%d d%d->%d r=%d at %s : %s" % (m.kind, m.num, m.w, m.d, d, r, ends, m.text[:120]), nontrivial=False)
    odd = any(math.frexp(y - x)[0] != .5 for x, y in cells)
    num = "D" if (m.approx and m.num == "R") else m.num
    c.check(s.width == base.width and s.ctx.depth == d, "simplify.shape", lambda: "width %s depth %s" % (s.width, s.ctx.depth))
    c.check(s.support.inf() == a and s.support.sup() == b, "simplify.support", lambda: "%s for partition of [%s,%s)" % (s.support, a, b))
    ps = []
    for x, y in cells:
        ps.append(((x, y), rpx.read_lie(base.log_signature(rp.RealInterval(x, y), r, ctx=rpx.ctx(m.w, d, m.num)), m.num)))
    rng_pairs = [(i, i) for i in range(len(cells))] + [tuple(sorted((rng.randrange(len(cells)), rng.randrange(len(cells))))) for _ in range(3)]
    for i, j in rng_pairs:
        iv = rp.RealInterval(ends[i], ends[j + 1])
        r2 = r + rng.choice([0, 0, 1, 2])
        A = base.signature(iv, r, ctx=rpx.ctx(m.w, d, m.num))
        B = s.signature(iv, r2)
        c.describe("cells %d-%d" % (i, j), nontrivial=len(rpx.read_ft(A, m.num)) > 1)
        ga, gb = rpx.read_ft(A, m.num), rpx.read_ft(B, m.num)
        lies = [l for _, l in ps[i:j + 1]]
        n2 = "D" if (odd and m.num == "R") else num
        scale = sm.bound(lies, d, n2) if n2 != "P" else 1.0
        if m.num == "P" and odd:
            continue
        c.check(rpx.same(gb, ga, n2, scale, 4096), "simplify.cells", lambda: "cells %d-%d %s r=%d: %s" % (i, j, iv, r2, rpx.diff(gb, ga)))
    if m.num != "P" or not odd:
        m2 = kinds.Made("x", s, m.w, d, m.num, (a, b), r, None, approx=m.approx or odd)
        expect(c, m2, s, ps, (a, b), "simplified")


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("pieces", pieces, 900 * k), ("simplify", simplify, 700 * k)]
