"""C12 group-likeness and Chen's identity."""
import math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("streams of every kind (increments, ticks, piecewise abelian, function, Brownian, sound file, restricted, simplified) over every coefficient type; "
        "an interval is cut at random points of the query's dyadic grid, the parts are asked in random order, before or after the whole, and multiplied by the reference; "
        "every signature is checked for the shuffle character identity and against the exponential of the log signature; non-trivial: at least two parts have a non-unit signature")
ASSUMPTIONS = ["streams generated on demand are first asked for the whole range at the resolution used for the parts",
               "floating coefficient types, and pieces whose lengths are not dyadic, are compared within a forward error bound"]
MIN_CASES = 200
SCALE = 3


def norm(t):
    return len([k for k in t if k])


def tol(m, T, n):
    """Kind of comparison and its scale."""
    if not m.approx:
        return m.num, 1.0
    num = "D" if m.num in "RP" else m.num
    return num, min(1e30, (1 + sum(float(abs(x)) for k, x in T.items() if k and not isinstance(x, ref.Poly))) ** m.d * (64 + 16 * n))


def same(m, got, want, scale):
    if not m.approx:
        return rpx.same(got, want, m.num)
    num = "D" if m.num in "RP" else m.num
    return rpx.same(got, want, num, scale, 4096)


def group_like(c, m, S, depth, scale, text):
    c.check(S.get((), 0) == 1 if not m.approx else abs(float(S.get((), 0)) - 1) < 1e-5, "constant", lambda: "%s: constant term %s" % (text, S.get(())))
    ws = ref.words(m.w, depth)
    pairs = [(u, v) for u in ws for v in ws if u and v and len(u) + len(v) <= depth]
    if len(pairs) > 40:
        pairs = c.rng.sample(pairs, 40)
    for u, v in pairs:
        lhs = S.get(u, 0) * S.get(v, 0)
        rhs = 0
        for x, k in ref.shuffle_words(u, v).items():
            rhs = rhs + S.get(x, 0) * k
        ok = same(m, {(): lhs} if lhs else {}, {(): rhs} if rhs else {}, scale * scale)
        c.check(ok, "shuffle_character", lambda: "%s: <S,%s><S,%s> = %s but <S,shuffle> = %s" % (text, u, v, lhs, rhs))


def cuts(c, m):
    rng = c.rng
    a, b = m.span
    ln = max(b - a, 1e-3)
    r = rng.choice([m.res, m.res, m.res + 1, m.res + 2, max(m.res - 1, 0), 2])
    # at most a few dozen cells
    while ln * 2.0 ** r > 64:
        r -= 1
    lo = rng.choice([a - ln * rng.random(), a, rng.uniform(a, b), float(sm.flo(a, r)), float(sm.flo(a, r)) - 2.0 ** -r])
    hi = rng.choice([b + ln * rng.random(), b, rng.uniform(a, b), float(sm.cei(b, r)), float(sm.cei(b, r)) + 2.0 ** -r])
    if lo > hi:
        lo, hi = hi, lo
    g0, g1 = sm.cei(lo, r), sm.flo(hi, r)
    grid = []
    x = g0
    while x <= g1:
        if lo < x < hi:
            grid.append(float(x))
        x += F(2) ** -r
    k = rng.choice([1, 1, 2, 3, 5])
    pts = sorted(rng.sample(grid, min(k, len(grid))))
    return lo, hi, pts, r


def chen(c):
    rng = c.rng
    m = kinds.pick(c)
    s = m.s
    c.describe("%s %s w%d d%d %s" % (m.kind, m.num, m.w, m.d, m.text[:160]), nontrivial=False)
    if m.dynamic:
        lo, hi, pts, r = cuts(c, m)
        first = rp.RealInterval(math.floor(min(lo, m.span[0])) - 1.0, math.ceil(max(hi, m.span[1])) + 1.0)
        s.log_signature(first, r)
    for _ in range(3):
        if not m.dynamic:
            lo, hi, pts, r = cuts(c, m)
        if not pts:
            continue
        d = m.d if rng.random() < .7 or m.dynamic else rng.randint(1, m.d)
        kw = {} if d == m.d else {"depth": d}
        ends = [lo] + pts + [hi]
        ivs = list(zip(ends, ends[1:])) + [(lo, hi)]
        order = list(range(len(ivs)))
        rng.shuffle(order)
        got = {}
        for i in order:
            iv = rp.RealInterval(*ivs[i])
            if rng.random() < .5:
                S = s.signature(iv, r, **kw)
                L = s.log_signature(iv, r, **kw)
            else:
                L = s.log_signature(iv, r, **kw)
                S = s.signature(iv, r, **kw)
            got[i] = (rpx.read_ft(S, m.num), ref.l2t(rpx.read_lie(L, m.num)))
        text = "cut [%r,%r) at %s resolution %d %s" % (lo, hi, pts, r, kw)
        parts = [got[i] for i in range(len(ivs) - 1)]
        whole = got[len(ivs) - 1]
        c.describe(text, nontrivial=sum(1 for p in parts if norm(p[0])) >= 2)
        prod = {(): F(1)}
        scale = 1.0
        for p in parts:
            prod = ref.mul(prod, p[0], d)
            scale *= 1 + (sum(float(abs(x)) for k, x in p[1].items()) if m.num != "P" and m.approx else 0)
        scale = min(1e30, scale ** d * (64 + 16 * len(parts)))
        c.check(same(m, whole[0], prod, scale), "chen.signature", lambda: text + ": " + rpx.diff(whole[0], prod))
        lg = ref.log(prod, d)
        c.check(same(m, whole[1], lg, scale), "chen.log_signature", lambda: text + ": " + rpx.diff(whole[1], lg))
        for i in rng.sample(range(len(ivs)), min(2, len(ivs))):
            S, L = got[i]
            t2 = "[%r,%r) r=%d" % (ivs[i][0], ivs[i][1], r)
            e = ref.exp(L, d)
            c.check(same(m, S, e, scale), "exp_of_log", lambda: t2 + ": " + rpx.diff(S, e))
            group_like(c, m, S, d, scale, t2)


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("chen", chen, 1500 * k)]
