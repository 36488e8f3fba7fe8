"""C19 signature derivative."""
import math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("derivatives over one interval and over sequences of consecutive intervals of streams of every kind, perturbations of every support (letters, brackets, zero, lower depth), coefficient types and "
        "depths, both argument forms; compared with the derivative of the exponential series of the log signatures and the product rule, and for linearity; non-trivial: the perturbation is not zero and neither is a log signature")
ASSUMPTIONS = ["the log signatures over the perturbed intervals are the stream's own (their correctness is C11-C17)", "floating coefficient types are compared within a forward error bound"]
MIN_CASES = 150
SCALE = 4


def dexp(L, P, depth):
    """First-order change of exp(L) towards P."""
    powers = [{(): F(1)}]
    while len(powers) <= depth:
        powers.append(ref.mul(powers[-1], L, depth))
    out, fact = {}, 1
    for n in range(1, depth + 1):
        fact *= n
        for i in range(n):
            t = ref.mul(ref.mul(powers[i], P, depth), powers[n - 1 - i], depth)
            out = ref.add(out, ref.scale(t, F(1, fact)))
    return ref.clean(out)


def rule(items, depth):
    out = {}
    sigs = [ref.exp(L, depth) for L, _ in items]
    for k, (L, P) in enumerate(items):
        t = {(): F(1)}
        for j, s in enumerate(sigs):
            t = ref.mul(t, dexp(L, P, depth) if j == k else s, depth)
        out = ref.add(out, t)
    return ref.clean(out)


def pinned(items, depth):
    """D <- D S_k + d_k, which leaves out the signature of the earlier intervals in front of d_k."""
    out = {}
    for L, P in items:
        out = ref.add(ref.mul(out, ref.exp(L, depth), depth), dexp(L, P, depth))
    return ref.clean(out)


def mags(L):
    return sum(float(abs(v)) for v in L.values()) if L and not isinstance(next(iter(L.values())), ref.Poly) else 0.0


def derive(c):
    rng = c.rng
    m = kinds.pick(c)
    s, num, w = m.s, m.num, m.w
    d = m.d if rng.random() < .7 or m.dynamic else rng.randint(1, m.d)
    cx = rpx.ctx(w, d, num)
    a, b = math.floor(m.span[0]) - rng.choice([0.0, 1.0]), math.ceil(m.span[1]) + 1.0
    r = rng.choice([m.res, 0, 1, 2, 3])
    while (b - a) * 2.0 ** r > 200:
        r -= 1
    n = rng.choice([1, 1, 1, 2, 3, 5])
    pts = sorted(rng.choice([rng.uniform(a, b), math.floor(rng.uniform(a, b)) + 0.0, rng.randint(0, 8) / 8 * (b - a) + a]) for _ in range(n + 1))
    ivs = [rp.RealInterval(x, y) for x, y in zip(pts, pts[1:]) if x < y]
    if not ivs:
        return
    if m.dynamic:
        s.log_signature(rp.RealInterval(a - 1, b + 1), max(r, 3))
    kw = {}
    mode = rng.choice(["default", "pos", "kw"])
    extra = []
    rr = None
    if mode == "pos":
        extra = [r]
        rr = r
    elif mode == "kw":
        kw["resolution"] = r
        rr = r
    elif any((min(iv.sup(), m.span[1]) - max(iv.inf(), m.span[0])) * 2.0 ** m.res > 200 for iv in ivs):
        extra = [r]
        rr = r
    if d != m.d:
        kw["depth"] = d
    lk = {"ctx": cx}
    lk["resolution"] = s.resolution if rr is None else rr      # the default is the stream's own
    perts, items = [], []
    for iv in ivs:
        st = rng.random()
        p = {} if st < .08 else sm.rand_lie(rng, w, d, num, st < .4)
        perts.append((p, rpx.lie(cx, num, p, rng.choice("sd"))))
        L = ref.l2t(rpx.read_lie(s.log_signature(iv, **lk), num))
        items.append((L, ref.l2t(p)))
    want = rule(items, d)
    if len(ivs) == 1 and rng.random() < .7:
        got = c.call("derivative", s.signature_derivative, ivs[0], perts[0][1], *extra, **kw)
        form = "single"
    else:
        got = c.call("derivative", s.signature_derivative, [(iv, p) for iv, (_, p) in zip(ivs, perts)], *extra, **kw)
        form = "list"
    text = "%s %s %s %s %s pert %s" % (form, [str(i) for i in ivs], extra, kw, "r=%s" % rr, [rpx.show(p, 3) for p, _ in perts])
    c.describe("%s %s w%d d%d %s ; %s" % (m.kind, num, w, d, m.text[:80], text), nontrivial=any(L and P for L, P in items))
    G = rpx.read_ft(got, num)
    scale = 1.0
    if num in "DS":
        scale = min(1e30, (1 + sum(mags(L) + mags(P) for L, P in items)) ** d * 64 * len(items))
    ok = rpx.same(G, want, num, scale, 4096)
    if not ok and len(items) > 1 and rpx.same(G, pinned(items, d), num, scale, 4096):
        # the recursion the repository's own test expects; a known finding
        c.check(False, "list.earlier_signatures", lambda: text + ": " + rpx.diff(G, want))
    else:
        c.check(ok, "value." + form, lambda: text + ": " + rpx.diff(G, want))
    c.check(got.max_degree == d and got.width == w, "shape", lambda: text + ": width %d depth %d" % (got.width, got.max_degree))
    for (p, P), iv in zip(perts, ivs):
        c.check(rpx.read_lie(P, num) == ref.clean(p), "argument", lambda: "the perturbation was changed to %s" % P)
    # linearity
    if form == "single" and num != "P":
        q = sm.rand_lie(rng, w, d, num)
        Q = rpx.lie(cx, num, q)
        k = rng.choice([-2, 2, 3])
        lhs = rpx.read_ft(s.signature_derivative(ivs[0], perts[0][1] * k + Q, *extra, **kw), num)
        rhs = rpx.read_ft(got * k + s.signature_derivative(ivs[0], Q, *extra, **kw), num)
        c.check(rpx.same(lhs, rhs, num, scale * 10 * (1 + mags(ref.l2t(q))), 4096), "linear", lambda: text + ": " + rpx.diff(lhs, rhs))


def finite_difference(c):
    """Against the signature of a stream that really is perturbed."""
    rng = c.rng
    w, d = rng.choice([(1, 3), (2, 2), (2, 3), (3, 2)])
    cx = rpx.ctx(w, d, "R")
    l = sm.rand_lie(rng, w, d, "R")
    p = sm.rand_lie(rng, w, d, "R")
    mk = lambda L: rp.LieIncrementStream.from_increments([L], indices=[0.5], ctx=cx, resolution=2)
    A, P = rpx.lie(cx, "R", l), rpx.lie(cx, "R", p)
    c.describe("difference w%d d%d %s towards %s" % (w, d, rpx.show(l), rpx.show(p)), nontrivial=bool(l and p))
    iv = rp.RealInterval(0, 1)
    D = mk(A).signature_derivative(iv, P, 2)
    # the signature of A + t P is a polynomial of degree at most d in t: interpolate its derivative at 0
    ys = {}
    n = d + 1
    xs = list(range(n))
    for t in xs:
        ys[t] = rpx.read_ft(mk(A + P * t).signature(iv, 2), "R")
    want = {}
    for t in xs:
        # derivative at 0 of the Lagrange polynomial of node t
        co = F(0)
        for j in xs:
            if j == t:
                continue
            term = F(1, t - j)
            for k in xs:
                if k != t and k != j:
                    term *= F(0 - k, t - k)
            co += term
        want = ref.add(want, ref.scale(ys[t], co))
    got = rpx.read_ft(D, "R")
    c.check(got == ref.clean(want), "difference", lambda: rpx.diff(got, ref.clean(want)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("derive", derive, 1000 * k), ("difference", finite_difference, 300 * k)]
