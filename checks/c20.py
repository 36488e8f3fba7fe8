"""C20 dyadic numbers and dyadic intervals."""
import copy, math, pickle
from fractions import Fraction as F
import roughpy as rp
from iv import CLOPEN, OPENCL, TYPES, INF, Set, subset, meets, dfloor, dceil, rpoint, is_clopen

RULE = ("random dyadics k*2^-n (small, near the ends of the 64-bit range, n from -40 to 60) put through comparison, conversion to float, "
        "rebasing and in-place shifts; dyadic intervals of both conventions built every way, related to parents, children, neighbours and "
        "random other intervals; every answer compared with exact rational arithmetic on the sets of points; non-trivial: always; a native harness repeats this for both conventions over long walks of shrinking, expanding, flipping and advancing, against wide integers")
ASSUMPTIONS = ["a refused rebase may leave another representation of the same number",
               "an operation whose exact result does not fit the 64-bit multiplier or the power raises instead of wrapping"]
MIN_CASES = 400
SCALE = 5
M63 = 2 ** 63


def rk(rng):
    s = rng.random()
    if s < 0.5:
        return rng.randint(-20, 20)
    if s < 0.7:
        return rng.choice([1, -1]) * 2 ** rng.randint(0, 62) + rng.randint(-1, 1)
    if s < 0.85:
        return rng.choice([M63 - 1, -M63, M63 - 2, -M63 + 1, 2 ** 31, -2 ** 31, 2 ** 31 - 1, 2 ** 32, -2 ** 32 - 1])
    return rng.randint(-M63, M63 - 1)


def rn(rng):
    return rng.choice([0, 0, 1, 2, 3, 5, 10, 31, 32, 33, 52, 60, 62, 63, 64, 100, -1, -2, -7, -31, -33, -40])


def val(d):
    return F(d.k) / F(2) ** d.n


def cmpall(c, x, y, vx, vy, what):
    for name, got, want in [("<", x < y, vx < vy), ("<=", x <= y, vx <= vy), (">", x > y, vx > vy), (">=", x >= y, vx >= vy),
                            ("rational_equals", rp.Dyadic.rational_equals(x, y), vx == vy),
                            ("dyadic_equals", rp.Dyadic.dyadic_equals(x, y), (x.k, x.n) == (y.k, y.n))]:
        c.check(got == want, "dyadic.compare", lambda: "%s: %s %s %s gave %s" % (what, x, name, y, got))


def numbers(c):
    rng = c.rng
    log = []
    pool = []
    for _ in range(3):
        k, n = rk(rng), rn(rng)
        d = rp.Dyadic(k, n)
        c.check((d.k, d.n) == (k, n), "dyadic.build", lambda: "Dyadic(%s,%s) is %s" % (k, n, d))
        pool.append([d, F(k) / F(2) ** n])
        log.append("%d*2^-%d" % (k, n))
    if rng.random() < 0.6:          # close relatives of a value
        d, v = rng.choice(pool)
        for dn in (rng.randint(1, 8), 0):
            k = d.k * 2 ** dn + rng.choice([-1, 0, 1])
            if -M63 <= k < M63:
                pool.append([rp.Dyadic(k, d.n + dn), F(k) / F(2) ** (d.n + dn)])
    for _ in range(6):
        e = rng.choice(pool)
        d = e[0]
        op = rng.choice(["rebase", "rebase", "iadd", "pickle", "float"])
        if op == "rebase":
            r = rng.choice([d.n + rng.randint(-6, 6), rn(rng), d.n + rng.randint(40, 70)])
            ok = d.rebase(r)
            log.append("rebase(%d)" % r)
            c.check(val(d) == e[1], "rebase.value", lambda: "%s after %s, was %s" % (d, log, e[1]))
            k = e[1] * F(2) ** r
            can = k.denominator == 1 and -M63 <= k < M63
            if k == -M63 and r > d.n:
                can = ok    # the most negative multiplier may be refused
            c.check(ok == can, "rebase.result", lambda: "rebase of %s to %d gave %s" % (e[1], r, ok))
            if ok:
                c.check(d.n == r, "rebase.power", lambda: "rebase to %d left %s" % (r, d))
        elif op == "iadd":
            a = rng.choice([rng.randint(-9, 9), rk(rng)])
            want = d.k + a
            n = d.n
            log.append("+= %d" % a)
            try:
                d2 = d
                d2 += a
            except Exception as ex:  # noqa: BLE001
                c.check(not -M63 <= want < M63, "iadd.raises", lambda: "%s raised %s" % (log, ex))
                c.check((d.k, d.n) == (want - a, n), "iadd.partial", lambda: "refused %s left %s" % (log, d))
            else:
                if not c.check((d2.k, d2.n) == (want, n), "iadd.value", lambda: "%s gave %s" % (log, d2)):
                    return
                e[0], e[1] = d2, F(want) / F(2) ** n
                d = d2
        elif op == "pickle":
            q = pickle.loads(pickle.dumps(d))
            c.check((q.k, q.n) == (d.k, d.n), "dyadic.pickle", lambda: "%s became %s" % (d, q))
        else:
            f = float(d)
            want = e[1]
            try:
                w = float(want)
            except OverflowError:
                continue
            if abs(want) > F(2) ** -900:
                c.check(f == w, "dyadic.float", lambda: "float(%s) is %r want %r" % (d, f, w))
    for x, vx in pool:
        c.check(val(x) == vx, "dyadic.value", lambda: "%s is not %s" % (x, vx))
        for y, vy in pool:
            cmpall(c, x, y, vx, vy, log)
    c.describe("numbers " + " ".join(log))


def di(c, rng, small=False):
    """A dyadic interval of either type with its exact set, built by a random constructor."""
    t = rng.choice(TYPES)
    k = rng.randint(-20, 20) if small or rng.random() < 0.7 else rng.choice([2 ** 40 + rng.randint(-2, 2), -2 ** 40 + rng.randint(-2, 2), rng.randint(-2 ** 60, 2 ** 60)])
    n = rng.randint(-3, 8) if small or rng.random() < 0.8 else rng.choice([-30, -10, 20, 31, 40, 55])
    d = rp.DyadicInterval(k, n, t)
    u = F(1) / F(2) ** n
    v = F(k) * u
    s = Set(v, v + u, t) if is_clopen(t) else Set(v - u, v, t)
    return d, s, n


def readable(c, d, s, n, what):
    """All reading methods of an interval agree with the set s of length 2^-n."""
    q = d.dyadic_inf(), d.dyadic_sup(), d.dyadic_included_end(), d.dyadic_excluded_end()
    inc, exc = (s.lo, s.hi) if is_clopen(s.t) else (s.hi, s.lo)
    for name, got, want in zip(("inf", "sup", "included_end", "excluded_end"), q, (s.lo, s.hi, inc, exc)):
        if not c.check(val(got) == want and got.n == n, "di.dyadic_" + name, lambda: "%s of %s is %s, want %s (%s)" % (name, d, got, want, what)):
            return False
        f = getattr(d, name)()
        if not c.check(f == float(want), "di." + name, lambda: "%s of %s is %s, want %s (%s)" % (name, d, f, want, what)):
            return False
    return c.check(d.interval_type == s.t, "di.type", lambda: "%s has type %s (%s)" % (d, d.interval_type, what))


def intervals(c):
    rng = c.rng
    d, s, n = di(c, rng)
    k0 = d.dyadic_included_end().k
    what = "DyadicInterval(%d,%d,%s)" % (k0, n, "clopen" if is_clopen(s.t) else "opencl")
    log = [what]
    if not readable(c, d, s, n, what):
        return
    for step in range(rng.randint(2, 7)):
        op = rng.choice(["left", "right", "contained", "omitted", "ancestor", "copy"])
        u = s.hi - s.lo
        mid = (s.lo + s.hi) / 2
        if n > 56 and op in ("left", "right", "contained", "omitted"):
            break
        big = abs(d.dyadic_included_end().k) > 2 ** 57
        if op in ("left", "right", "contained", "omitted") and big:
            op = "copy"
        if op in ("left", "right"):
            if op == "left":
                m = rng.choice([1, 1, 2, 3])
                d.shrink_left(m) if m > 1 or rng.random() < 0.5 else d.shrink_left()
                s = Set(s.lo, s.lo + u / 2 ** m, s.t)
                n += m
            else:
                d.shrink_right()
                s = Set(mid, s.hi, s.t)
                n += 1
        elif op == "contained":
            m = rng.choice([1, 1, 2, 4])
            d = d.shrink_to_contained_end(m)
            s = Set(s.lo, s.lo + u / 2 ** m, s.t) if is_clopen(s.t) else Set(s.hi - u / 2 ** m, s.hi, s.t)
            n += m
        elif op == "omitted":
            old = d
            d = d.shrink_to_omitted_end()
            s = Set(mid, s.hi, s.t) if is_clopen(s.t) else Set(s.lo, mid, s.t)
            n += 1
        elif op == "ancestor":
            # the grid interval of a coarser resolution that contains this one
            if not is_clopen(s.t):
                continue
            m = rng.randint(0, 6)
            d2 = rp.DyadicInterval(d.dyadic_included_end(), n - m)
            w = F(2) ** m * (s.hi - s.lo)
            lo = dfloor(s.lo, n - m)
            s, n, d = Set(lo, lo + w, s.t), n - m, d2
            log.append("ancestor%d" % m)
        elif op == "copy":
            d2 = rng.choice([copy.copy, lambda x: pickle.loads(pickle.dumps(x))])(d)
            c.check(d2 == d, "di.copy.eq", lambda: "copy of %s" % d)
            d = d2
        log.append(op)
        if not readable(c, d, s, n, " ".join(log)):
            return
    c.describe("intervals " + " ".join(log))
    points(c, rng, d, s)


def exactf(x):
    return F(x) if math.isfinite(float(x)) and F(float(x)) == x else None


def points(c, rng, d, s):
    cand = []
    for e in (s.lo, s.hi, (s.lo + s.hi) / 2):
        f = float(e)
        cand += [f, math.nextafter(f, -INF), math.nextafter(f, INF)]
    cand.append(rpoint(rng))
    for p in cand:
        if math.isfinite(p) and exactf(s.lo) is not None and exactf(s.hi) is not None:
            c.check(d.contains(p) == s.has(F(p)), "di.contains_point", lambda: "%s contains %r gave %s" % (d, p, d.contains(p)))


def pairs(c):
    """containment, intersection and equality of pairs, dyadic and real, both conventions"""
    rng = c.rng
    pool = []
    for _ in range(4):
        if rng.random() < 0.7 or not pool:
            d, s, n = di(c, rng, small=True)
        else:
            _d, s0, n0, _r = rng.choice(pool)
            # a relative: child, neighbour or parent with a random convention
            t = rng.choice(TYPES)
            n = n0 + rng.randint(-2, 3)
            lo = dfloor(rng.choice([s0.lo, s0.hi, (s0.lo + s0.hi) / 2]), n)
            u = F(1) / F(2) ** n
            s = Set(lo, lo + u, t)
            k = (lo if is_clopen(t) else lo + u) / u
            d = rp.DyadicInterval(int(k), n, t)
            readable(c, d, s, n, "relative")
        pool.append((d, s, n, rp.RealInterval(d) if rng.random() < 0.5 else rp.RealInterval(float(s.lo), float(s.hi), s.t)))
    c.describe("pairs " + " ".join(str(p[1]) for p in pool))
    for d, s, n, r in pool:
        for e, t, m, q in pool:
            for x in (d, r):
                for y in (e, q):
                    c.check(x.contains(y) == subset(t, s), "contains", lambda: "%s(%s).contains(%s(%s)) gave %s" % (type(x).__name__, s, type(y).__name__, t, x.contains(y)))
                    c.check(x.intersects_with(y) == meets(s, t), "intersects", lambda: "%s(%s).intersects_with(%s(%s)) gave %s" % (type(x).__name__, s, type(y).__name__, t, x.intersects_with(y)))
                    same = s.t == t.t and s.lo == t.lo and s.hi == t.hi
                    c.check((x == y) == same, "eq", lambda: "%s == %s gave %s" % (s, t, x == y))


def families(tier):
    q = 1 if tier == "quick" else 40
    return [("numbers", numbers, 1600 * q), ("intervals", intervals, 1200 * q), ("pairs", pairs, 600 * q)]


def programs(tier):
    m = 1 if tier == "quick" else 40
    return [("intervals", "asan", [("native_numbers", 3000 * m), ("native_walk", 4000 * m), ("native_pairs", 3000 * m), ("native_cells", 1500 * m)], 4)]
