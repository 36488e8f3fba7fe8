"""C09 scalars and polynomial coefficients are exact commutative rings."""
import math, operator, struct
from fractions import Fraction
import numpy as np
import roughpy as rp
import ref, rpx
from ref import Poly

RULE = ("random straight-line programs over rational, polynomial, double and single scalars (operators with scalars, ints, floats, in-place forms, growth to "
        "thousands of bits) and over monomials and polynomials built in shuffled orders, every live value compared with exact rational / symbolic arithmetic "
        "(IEEE arithmetic for floating types) after every statement; non-trivial: at least one product and one sum of nonzero values")
ASSUMPTIONS = ["single precision operators round each operation to single", "indeterminate indices stay below 2^53 and total degrees below 2^31"]
MIN_CASES = 80
SCALE = 8

BIG = [2 ** 62, -2 ** 62, 2 ** 53 + 1, 10 ** 18, -(10 ** 17) - 7]


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


# ---- scalars ---------------------------------------------------------------

class Sc:
    def __init__(self, o, v, k):
        # k: the scalar type of the value; single precision meeting a Python float becomes double
        self.o, self.v, self.k = o, v, k


def read(kind, o):
    if kind in "DS":
        return o.to_float()
    return rpx.value(o, kind)


def eqv(kind, a, b):
    if kind in "DS":
        return a == b or (a != a and b != b)
    return a == b


def arith(kind, op, a, b):
    if kind == "P":
        b = Poly.of(b) if op != "/" else b
        return a + b if op == "+" else a + b * Fraction(-1) if op == "-" else a * b if op == "*" else a * (Fraction(1) / b)
    f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op]
    r = f(a, b)
    if kind == "S":
        r = f32(r)
    return r


def val(rng, kind):
    if kind == "R":
        return rpx.rcoef(rng, "R")
    if kind == "P":
        return rpx.rcoef(rng, "P")
    if kind == "D":
        return rng.choice([rng.uniform(-3, 3), float(rng.randint(-9, 9)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12), 0.1])
    return f32(rng.choice([rng.uniform(-3, 3), float(rng.randint(-9, 9)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-6, 6), 0.1]))


def scalars(c):
    rng = c.rng
    kind = rng.choice("RRRPDDS")
    pool, log = [], []

    def fresh(v):
        o = rpx.scalar(kind, Fraction(v) if kind in "DS" else v)
        pool.append(Sc(o, v, kind))
        log.append("%s" % (v,))
    for _ in range(3):
        fresh(val(rng, kind))
    for step in range(rng.choice([6, 12, 18])):
        a = rng.choice(pool)
        form = rng.choice(["ss", "si", "is", "sf", "iss", "isi", "neg", "fresh"])
        if form == "fresh":
            fresh(val(rng, kind))
            continue
        if form == "neg":
            log.append("neg")
            pool.append(Sc(c.call("scalar.neg", operator.neg, a.o), -a.v if kind != "P" else a.v * Fraction(-1), a.k))
        else:
            op = rng.choice("++--**/")
            if kind == "P" and op == "/":
                op = "*"
            if form in ("ss", "iss"):
                b = rng.choice(pool)
                bo, bv = b.o, b.v
                k = "D" if "D" in (a.k, b.k) else kind
            elif form == "sf":
                k = "D" if kind == "S" else kind
                bv = rng.choice([0.5, -1.25, 3.0, 2.0 ** -20])
                bo = bv
                if kind in "RP":
                    bv = Fraction(bv)
            else:
                k = a.k
                bv = rng.choice([-3, -1, 1, 2, 7, 12345] + (BIG if kind == "R" else []))
                bo = bv
                if kind in "RP":
                    bv = Fraction(bv)
                else:
                    bv = float(bv)
            if op == "/" and (bv == 0 or form == "is" and a.v == 0):
                try:
                    r = bo / a.o if form == "is" else a.o / bo
                except Exception:  # noqa: BLE001
                    c.check(True, "x")
                else:
                    c.check(kind in "DS", "scalar.divzero", lambda: "%s / %s gave %s" % (a.v, bv, r))
                continue
            if kind == "P" and max(len(a.v.d), 1) * (len(bv.d) if isinstance(bv, Poly) else 1) > 60:
                continue
            if kind == "R" and a.v.numerator.bit_length() > 4000:
                continue
            log.append("%s%s" % (form, op))
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op]
            g = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}[op]
            if form == "is":
                r = c.call("scalar." + form + op, f, bo, a.o)
                want = arith(k, op, Poly.of(bv) if kind == "P" else bv, a.v)
                pool.append(Sc(r, want, k))
            elif form in ("iss", "isi"):
                want = arith(k, op, a.v, bv)
                r = c.call("scalar." + form + op, g, a.o, bo)
                a.v, a.k = want, k
                a.o = r
            else:
                want = arith(k, op, a.v, bv)
                r = c.call("scalar." + form + op, f, a.o, bo)
                pool.append(Sc(r, want, k))
        for i, s in enumerate(pool):
            got = read(kind, s.o)
            if not c.check(eqv(kind, got, s.v), "scalar.value." + log[-1][:4], lambda: "value %d is %s, not %s, after %s (%s)" % (i, got, s.v, log, kind)):
                return
        if len(pool) > 8:
            pool = pool[-8:]
    c.describe("scalars %s %s" % (kind, " ".join(log)), nontrivial=True)
    # comparison and printing
    for a in pool:
        for b in pool:
            e = c.call("scalar.eq", operator.eq, a.o, b.o)
            c.check(e == (a.v == b.v), "scalar.eq.value", lambda: "%s == %s gave %s" % (a.v, b.v, e))
            e = c.call("scalar.ne", operator.ne, a.o, b.o)
            c.check(e == (a.v != b.v), "scalar.ne.value", lambda: "%s != %s gave %s" % (a.v, b.v, e))
        if kind in "DS":
            c.check(a.v != a.v or math.isinf(a.v) or abs(float(str(a.o)) - a.v) <= 1e-5 * abs(a.v), "scalar.print", lambda: "%s printed as %s" % (a.v, a.o))
        t = c.call("scalar.type", a.o.scalar_type)
        c.check(t == {"R": rp.Rational, "P": rp.RationalPoly}.get(kind, float), "scalar.type", lambda: "the type of %s is %s after %s (%s)" % (a.v, t, log, kind))
        if kind in "RDS":
            f = a.o.to_float()
            try:
                w = float(a.v)
            except OverflowError:
                w = math.copysign(math.inf, a.v)
            c.check(f == w or w != w or abs(f - w) <= 2 ** -52 * abs(w) or math.isinf(f) and abs(w) > 1e308, "scalar.to_float", lambda: "%s to_float is %s" % (a.v, f))
        for n in (0, 1, 3):
            e = a.o == n
            want = a.v == (Poly.of(n) if kind == "P" else n)
            c.check(e == want, "scalar.eq.int", lambda: "%s == %d gave %s" % (a.v, n, e))


def mixed(c):
    """Scalars of different types: the value of the result is the value of the operation in a type that can hold both."""
    rng = c.rng
    k1, k2 = rng.choice("RDS"), rng.choice("RDS")
    a, b = Fraction(rng.randint(-40, 40), 8), Fraction(rng.randint(-40, 40), 8)
    A, B = rpx.scalar(k1, a), rpx.scalar(k2, b)
    c.describe("mixed %s %s %s %s" % (k1, a, k2, b), nontrivial=k1 != k2)

    def v(s):
        t = str(s)
        return Fraction(t) if "/" in t or "." not in t and "e" not in t and "inf" not in t and "nan" not in t else Fraction(s.to_float())
    for op, f in (("+", operator.add), ("-", operator.sub), ("*", operator.mul)):
        r = c.call("mixed." + op, f, A, B)
        w = f(a, b)
        g = v(r)
        c.check(g == w, "mixed.value." + op, lambda: "%s:%s %s %s:%s gave %s" % (k1, a, op, k2, b, r))
    if b:
        r = c.call("mixed./", operator.truediv, A, B)
        g = v(r)
        c.check(abs(g - a / b) <= abs(a / b) * Fraction(2 ** -22), "mixed.value./", lambda: "%s:%s / %s:%s gave %s" % (k1, a, k2, b, r))
    c.check((A == B) == (a == b), "mixed.eq", lambda: "%s:%s == %s:%s gave %s" % (k1, a, k2, b, A == B))
    c.check(v(A) == a and v(B) == b, "mixed.operands", lambda: "%s %s" % (A, B))


# ---- monomials and polynomials ----------------------------------------------

NAMES = ["x", "y", "z", "X", "x1", "x2", "y10", "a123456789", "b0"]


def rmono(rng, top=3):
    return tuple(sorted({rng.choice(NAMES): rng.randint(1, top) for _ in range(rng.choice([0, 1, 1, 2, 3]))}.items()))


def canon(name):
    """x and x0 are the same indeterminate, leading zeros do not count."""
    return name[0] + str(int(name[1:] or 0))


def mkey(m):
    d = {}
    for n, p in m:
        n = canon(n)
        d[n] = d.get(n, 0) + p
    return tuple(sorted(d.items()))


def build_mono(rng, m):
    items = [(n, p) for n, p in m]
    rng.shuffle(items)
    how = rng.choice(["dict", "pairs", "letters", "mul", "kwargs"])
    if how == "dict":
        return rp.Monomial(dict(items))
    if how == "pairs":
        return rp.Monomial(items)
    if how == "kwargs" and items:
        return rp.Monomial(**dict(items))
    if how == "letters":
        ls = [n for n, p in items for _ in range(p)]
        rng.shuffle(ls)
        return rp.Monomial(ls)
    r = rp.Monomial({})
    for n, p in items:
        r = r * rp.Monomial(n) ** p if rng.random() < 0.5 else r * rp.Monomial(n, p)
    return r


def read_poly(o):
    return rpx.parse_poly(str(o))


def P(d):
    return Poly({k: v for k, v in d.items() if v})


def norm(d):
    """Poly printed names -> canonical."""
    out = {}
    for m, q in d.d.items():
        k = mkey(m)
        out[k] = out.get(k, 0) + q
    return P(out)


def monomials(c):
    rng = c.rng
    ms = [rmono(rng) for _ in range(4)]
    c.describe("monomials %s" % (ms,), nontrivial=any(ms))
    objs = [c.call("monomial.build", build_mono, rng, m) for m in ms]
    for m, o in zip(ms, objs):
        k = mkey(m)
        o2 = build_mono(rng, m)
        c.check(o == o2 and hash(o) == hash(o2) and not (o != o2), "monomial.order", lambda: "%s and %s denote the same monomial" % (o, o2))
        for n in ["x", "y", "z", "x1", "q"]:
            g = o[n]
            c.check(g == dict(k).get(canon(n), 0), "monomial.index", lambda: "%s[%s] is %s" % (m, n, g))
        c.check(len(o) == len(k), "monomial.len", lambda: "len(%s) is %s" % (m, len(o)))
        c.check(bool(o) == bool(k), "monomial.bool", lambda: "bool(%s)" % (m,))
    for (m, a), (n, b) in [(rng.choice(list(zip(ms, objs))), rng.choice(list(zip(ms, objs)))) for _ in range(5)]:
        p, w = a * b, mkey(m + n)
        c.check(p == b * a, "monomial.commute", lambda: "%s %s" % (m, n))
        c.check(p == build_mono(rng, w), "monomial.mul", lambda: "%s * %s gave %s" % (m, n, p))
        c.check((a == b) == (mkey(m) == mkey(n)), "monomial.eq", lambda: "%s == %s" % (m, n))
        lt, gt = a < b, a > b
        c.check([lt, gt, a == b].count(True) == 1 and (a <= b) == (lt or a == b) and (a >= b) == (gt or a == b), "monomial.order-laws", lambda: "%s vs %s: %s %s" % (m, n, lt, gt))
        k = rng.randint(0, 4)
        q = c.call("monomial.pow", pow, a, k)
        c.check(q == build_mono(rng, tuple((x, e * k) for x, e in mkey(m)) if k else ()), "monomial.pow.value", lambda: "%s ** %d gave %s" % (m, k, q))
    # in-place product and setting powers keep references and values right
    m, n = rmono(rng), rmono(rng)
    a, b = build_mono(rng, m), build_mono(rng, n)
    keep = a
    for _ in range(3):
        a *= b
    w = mkey(m + n + n + n)
    c.check(a == build_mono(rng, w), "monomial.imul", lambda: "%s *= %s thrice gave %s" % (m, n, a))
    del keep
    a = build_mono(rng, m)
    name, e = rng.choice(NAMES), rng.randint(0, 3)
    a[name] = e
    d = dict(mkey(m))
    d[canon(name)] = e
    d = {x: y for x, y in d.items() if y}
    c.check(a == build_mono(rng, tuple(d.items())) and len(a) == len(d), "monomial.setitem", lambda: "%s[%s]=%d gave %s" % (m, name, e, a))
    c.check(rp.Monomial({name: 0}) == rp.Monomial({}), "monomial.zero-power", name)


def pval(rng):
    r = rng.random()
    if r < 0.4:
        return rng.randint(-9, 9)
    if r < 0.6:
        return rng.randint(-2 ** 200, 2 ** 200)
    if r < 0.8:
        return Fraction(rng.randint(-99, 99), rng.randint(1, 50))
    if r < 0.9:
        return Fraction(rng.randint(-2 ** 100, 2 ** 100), rng.randint(1, 2 ** 90))
    return rng.randint(-64, 64) / 16


def rpoly(rng):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        v = Fraction(pval(rng))
        if v:
            d[mkey(rmono(rng, 2))] = v
    return P(d)


def num(v):
    return v.numerator if v.denominator == 1 else v


def build_poly(rng, p):
    items = list(p.d.items())
    rng.shuffle(items)
    how = rng.choice(["dict", "sum", "pair", "sub"])
    if how == "dict":
        return rp.PolynomialScalar({build_mono(rng, m): num(v) for m, v in items}) if items else rp.PolynomialScalar(0)
    r = rp.PolynomialScalar(0)
    for m, v in items:
        if how == "pair":
            r = r + rp.PolynomialScalar(build_mono(rng, m), num(v))
        elif how == "sub":
            r = r - build_mono(rng, m) * num(-v)
        else:
            r += build_mono(rng, m) * num(v)
    return r


def polys(c):
    rng = c.rng
    pool = []
    log = []

    def add(o, v):
        pool.append([o, v])
    for _ in range(3):
        p = rpoly(rng)
        add(c.call("poly.build", build_poly, rng, p), p)
        log.append(str(p)[:60])
    for step in range(10):
        a = rng.choice(pool)
        form = rng.choice(["pp", "pp", "pm", "mp", "ps", "sp", "ip", "im", "is", "neg", "pow", "div", "idiv", "set", "mm", "ms"])
        op = rng.choice("+-*")
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul}[op]
        g = {"+": operator.iadd, "-": operator.isub, "*": operator.imul}[op]
        log.append(form + op)
        key = "poly." + form + op

        def wf(x, y):
            x, y = Poly.of(x), Poly.of(y)
            return x + y if op == "+" else x + y * Fraction(-1) if op == "-" else x * y
        m = rmono(rng, 2)
        M, mv = build_mono(rng, m), P({mkey(m): Fraction(1)})
        s = pval(rng)
        b = rng.choice(pool)
        if form in ("pp", "ip") and op == "*" and len(a[1].d) * len(b[1].d) > 80:
            continue
        if form == "pp":
            add(c.call(key, f, a[0], b[0]), wf(a[1], b[1]))
        elif form == "pm":
            add(c.call(key, f, a[0], M), wf(a[1], mv))
        elif form == "mp":
            add(c.call(key, f, M, a[0]), wf(mv, a[1]))
        elif form == "ps":
            add(c.call(key, f, a[0], s), wf(a[1], Fraction(s)))
        elif form == "sp":
            add(c.call(key, f, s, a[0]), wf(Fraction(s), a[1]))
        elif form == "mm":
            if op == "*":
                continue
            m2 = rmono(rng, 2)
            add(c.call(key, f, M, build_mono(rng, m2)), wf(mv, P({mkey(m2): Fraction(1)})))
        elif form == "ms":
            if rng.random() < 0.5:
                add(c.call(key, f, M, s), wf(mv, Fraction(s)))
            else:
                add(c.call(key, f, s, M), wf(Fraction(s), mv))
        elif form in ("ip", "im", "is"):
            o, v = (b[0], b[1]) if form == "ip" else (M, mv) if form == "im" else (s, Fraction(s))
            want = wf(a[1], v)
            a[0] = c.call(key, g, a[0], o)
            a[1] = want
        elif form == "neg":
            add(-a[0], a[1] * Fraction(-1))
            add(+a[0], a[1])
        elif form == "pow":
            k = rng.randint(0, 3)
            if len(a[1].d) ** k > 80:
                continue
            w = Poly.of(Fraction(1))
            for _ in range(k):
                w = w * a[1]
            add(c.call("poly.pow", pow, a[0], k), w)
        elif form in ("div", "idiv"):
            if not s:
                try:
                    r = a[0] / s
                except ArithmeticError:
                    c.check(True, "x")
                else:
                    c.check(False, "poly.divzero", lambda: "division by zero gave %s" % r)
                continue
            w = a[1] * (Fraction(1) / Fraction(s))
            if form == "div":
                add(c.call("poly.div", operator.truediv, a[0], s), w)
                add(c.call("mono.div", operator.truediv, M, s), mv * (Fraction(1) / Fraction(s)))
                MM = build_mono(rng, m)
                add(c.call("mono.idiv", operator.itruediv, MM, s), mv * (Fraction(1) / Fraction(s)))
            else:
                a[0] = c.call("poly.idiv", operator.itruediv, a[0], s)
                a[1] = w
        elif form == "set":
            def setit():
                a[0][M] = s
            c.call("poly.setitem", setit)
            d = dict(a[1].d)
            d[mkey(m)] = Fraction(s)
            a[1] = P(d)
        for i, (o, v) in enumerate(pool):
            got = norm(read_poly(o))
            if not c.check(got == v, key if form not in ("pow", "div", "idiv", "set", "neg") else "poly." + form, lambda: "value %d is %s, not %s, after %s" % (i, got, v, log)):
                return
        del pool[:-6]
    c.describe("polys " + " ".join(log), nontrivial=True)
    for o, v in pool:
        c.check(len(o) == len(v.d), "poly.len", lambda: "len(%s) is %d" % (o, len(o)))
        c.check(bool(o) == bool(v.d), "poly.bool", lambda: "bool(%s)" % o)
        deg = max([sum(e for _, e in m) for m in v.d], default=0)
        c.check(o.degree() == deg, "poly.degree", lambda: "degree(%s) is %s" % (o, o.degree()))
        o2 = build_poly(rng, v)
        c.check(o == o2 and not (o != o2), "poly.eq.order", lambda: "%s and %s denote the same polynomial" % (o, o2))
        for m in list(v.d)[:3] + [mkey(rmono(rng))]:
            g = Fraction(str(o[build_mono(rng, m)]))
            c.check(g == v.d.get(m, 0), "poly.getitem", lambda: "coefficient of %s in %s is %s" % (m, v, g))
        for q, w in pool:
            c.check((o == q) == (v == w), "poly.eq", lambda: "%s == %s gave %s" % (o, q, o == q))


def growth(c):
    """Values of thousands of bits, through an algebra context."""
    rng = c.rng
    cx = rpx.ctx(1, 1, "R")
    v = Fraction(rng.randint(2, 99), rng.randint(2, 99))
    s = rpx.scalar("R", v)
    w = v
    n = rng.randint(6, 11)
    c.describe("growth %s squared %d times" % (v, n))
    for i in range(n):
        s, w = s * s, w * w
        if rng.random() < 0.3:
            k = rng.choice(BIG)
            s, w = s + k, w + k
    got = Fraction(str(s))
    c.check(got == w, "growth.value", lambda: "wrong after %d squarings of %s" % (n, v))
    t = rp.FreeTensor([s], ctx=cx)
    g = rpx.read_ft(t, "R").get((), 0)
    c.check(g == w, "growth.element", "element built from a large scalar changed its value")
    d = s - s
    c.check(Fraction(str(d)) == 0, "growth.cancel", "x - x is not zero")
    e = s / s
    c.check(Fraction(str(e)) == 1, "growth.divide", "x / x is not one")
    c.check((s + 1 == s) is False and s == s, "growth.eq", "a large value equals its successor")


CLASSES = {"R": rp.Rational, "P": rp.RationalPoly, "D": rp.DPReal, "S": rp.SPReal}


def changes(c):
    """Values of every kind given to every other kind: the same value, or a refusal where there is none."""
    rng = c.rng
    for _ in range(12):
        src = rng.choice("PPPRDS")
        if src == "P":
            p = rpx.rcoef(rng, "P")
            if rng.random() < .4:
                p = Poly.const(Fraction(rng.choice([rng.randint(-9, 9), rng.randint(-2 ** 60, 2 ** 60), rng.randint(-99, 99)]), rng.randint(1, 12)))
            elif rng.random() < .5:
                p = p + Poly.const(Fraction(rng.randint(1, 9), rng.randint(1, 3)))
            v = p.d.get((), Fraction(0)) if isinstance(p, Poly) and set(p.d) <= {()} else None
            true, o = p, rpx.scalar("P", p)
        else:
            true = v = rng.choice([math.inf, -math.inf, math.nan]) if src in "DS" and rng.random() < .3 else val(rng, src)
            o = rpx.scalar(src, v) if src == "R" else v
        w, d = 2, 2
        if src != "D" or rng.random() < .6:
            o2 = [i.value() for i in rp.FreeTensor([o, 1], ctx=rpx.ctx(w, d, src))]
            o2 = o2[0] if len(o2) == 2 else None
            if o2 is not None and rng.random() < .7:
                o = o2
        dst = rng.choice("PRDS")
        cx = rpx.ctx(w, d, dst)
        how = rng.choice(["list", "second", "pairs", "dict", "tuple", "numeric", "scale", "to_float", "type"])
        text = "%s as %s by %s (%s)" % (true, dst, how, type(o).__name__)
        c.describe(text, nontrivial=True)
        if how == "type" and isinstance(o, (int, float)) or how == "to_float" and not isinstance(o, rp.Scalar):
            how = "list"
        if how in ("scale", "numeric"):
            how = "list"
        try:
            if how == "to_float":
                dst = "D"
                got = o.to_float()
            elif how == "type":
                r = CLASSES[dst](o)
                if src == "P" and r.scalar_type() is rp.RationalPoly and dst != "P":
                    got = "same" if rpx.value(r, "P") == true else "changed"    # stays what it was
                else:
                    got = r.to_float() if dst in "DS" else rpx.value(r, dst)
            else:
                if how in ("pairs", "dict"):
                    x = rp.Lie([(1, o)] if how == "pairs" else {1: o}, ctx=cx)
                else:
                    x = rp.FreeTensor([1, o] if how == "second" else (o,) if how == "tuple" else [o], ctx=cx)
                items = [i.value() for i in x]
                if how == "second":
                    c.check(len(items) >= 1 and (items[0].to_float() if dst != "P" else 1.0) == 1.0, "changes.neighbour", lambda: "%s gives %s" % (text, x))
                    items = items[1:]
                got = 0.0 if not items else items[0].to_float() if dst in "DS" else rpx.value(items[0], dst)
        except (ValueError, RuntimeError, TypeError, OverflowError) as e:
            fits = dst == "P" if v is None else not (dst in "RP" and isinstance(v, float) and not math.isfinite(v))
            if how == "type" and isinstance(o, rp.PolynomialScalar):
                fits = False                           # a type is only called with numbers
            c.check(not fits, "changes.refused", lambda: "%s: %s" % (text, e))
            continue
        if isinstance(got, str):
            c.check(got == "same", "changes.value", lambda: text)
            continue
        if v is None and dst == "P":
            c.check(got == true, "changes.value", lambda: "%s gives %s" % (text, got))
            continue
        if v is None or dst in "RP" and isinstance(v, float) and not math.isfinite(v):
            c.check(False, "changes.lost", lambda: "%s gives %s" % (text, got))
            continue
        if dst in "RP":
            if isinstance(got, float):
                got = Fraction(got)
            c.check(Poly.of(got) == Poly.of(Fraction(v)), "changes.value", lambda: "%s gives %s" % (text, got))
        elif isinstance(v, float) and not math.isfinite(v):
            c.check(got == v or got != got and v != v, "changes.value", lambda: "%s gives %s" % (text, got))
        else:
            q = Fraction(v)
            top = Fraction(2) ** (1023 if dst == "D" else 127)
            if abs(q) < top and (q == 0 or abs(q) > Fraction(1, 2) ** (1000 if dst == "D" else 120)):
                c.check(math.isfinite(got) and abs(Fraction(got) - q) <= abs(q) * Fraction(1, 2 ** (52 if dst == "D" else 23)), "changes.value", lambda: "%s gives %s" % (text, got))


def nonfinite(c):
    """No exact value corresponds to an infinity or a nan: mixing them with exact
    scalars must be refused, and the operands stay what they were."""
    rng = c.rng
    for _ in range(10):
        kind = rng.choice("RRP")
        v = rpx.rcoef(rng, kind)
        s = rpx.scalar(kind, v) if rng.random() < .6 else [i.value() for i in rp.FreeTensor([rpx.scalar(kind, v)], ctx=rpx.ctx(2, 2, kind))][0] if v != 0 else rpx.scalar(kind, v)
        f = rng.choice([math.inf, -math.inf, math.nan])
        o = rng.choice([f, f, rp.DPReal(f), rp.SPReal(f)])
        op = rng.choice(["+", "-", "*", "/"])
        swap = rng.random() < .5
        before = str(s)
        text = "%s %s %s" % ((o, op, v) if swap else (v, op, o))
        c.describe(text, nontrivial=True)
        a, b = (o, s) if swap else (s, o)
        try:
            r = a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
            got = str(r)
        except (ValueError, RuntimeError, TypeError):
            r = got = None
        if got is not None:
            ok = "inf" in got or "nan" in got or math.isinf(r.to_float()) or math.isnan(r.to_float())
            ok = ok or v == 0 and op in "*/"             # a zero has no type of its own
            ok = ok or not swap and op == "/" and math.isinf(f) and r.to_float() == 0
            c.check(ok, "scalar.nonfinite", lambda: "%s is %s" % (text, got))
        else:
            c.evals += 1
        c.check(str(s) == before, "scalar.operand_changed", lambda: "%s changed its operand to %s" % (text, s))
        if swap and not isinstance(o, float):
            z = o.to_float()
            c.check(z == f or z != z and f != f, "scalar.operand_changed", lambda: "%s changed its operand to %s" % (text, o))


def unlike(c):
    """Scalars of different types are equal exactly when their values are."""
    rng = c.rng
    def one():
        v = rng.choice([0.0, 1.5, -2.0, 2.0 ** 80, -2.0 ** -40, 1 / 3, 0.1, math.inf, -math.inf, math.nan, 1, -7, 2 ** 40])
        t = rng.choice(["D", "S", "R", "py"])
        if t == "py" or t == "R" and not math.isfinite(v):
            return v, float(v), "python"
        if t == "S":
            return rp.SPReal(v), float(np.float32(v)), "SPReal"
        return (rp.DPReal(v) if t == "D" else rp.Rational(v)), float(v), t
    for _ in range(12):
        (a, x, s), (b, y, t) = one(), one()
        if isinstance(a, (int, float)):
            continue
        text = "%s %r and %s %r" % (s, x, t, y)
        c.describe(text, nontrivial=True)
        c.check(bool(a == b) == (x == y), "scalar.unlike", lambda: "%s: == says %s" % (text, a == b))
        c.check(bool(a != b) == (x != y), "scalar.unlike", lambda: "%s: != says %s" % (text, a != b))


def powers(c):
    """A power that no longer fits is refused, never wrapped."""
    rng = c.rng
    top = 2 ** 31 - 1
    def one():
        m = {}
        for _ in range(rng.randint(1, 3)):
            m["x%d" % rng.randint(1, 3)] = rng.choice([1, 2, 5, 2 ** 29, 2 ** 30 - 1, 2 ** 30, top - 3, top])
        return m
    for _ in range(6):
        made = []
        for m in (one(), one()):
            try:
                made.append((m, rp.Monomial(m)))
                c.check(sum(m.values()) <= top, "monomial.degree", lambda: "%s made" % m)
            except OverflowError:
                c.check(sum(m.values()) > top, "monomial.degree", lambda: "%s refused" % m)
        if len(made) < 2:
            continue
        (m, a), (n, b) = made
        how = rng.choice(["mono", "poly", "scalar", "inplace", "pow", "set"])
        text = "%s %s %s" % (m, how, n)
        c.describe(text, nontrivial=True)
        want = {k: m.get(k, 0) + n.get(k, 0) for k in set(m) | set(n)}
        try:
            if how == "pow":
                k = rng.choice([0, 1, 2, 3, 2 ** 20])
                want = {x: e * k for x, e in m.items()} if k else {}
                r = a ** k
            elif how == "set":
                x, e = rng.choice(sorted(n.items()))
                want = dict(m, **{x: e})
                a[x] = e
                r = a
            elif how == "mono":
                r = a * b
            elif how == "inplace":
                r = a
                r *= b
            else:
                p, q = rp.PolynomialScalar({a: 2}), rp.PolynomialScalar({b: 3})
                z = p * q if how == "poly" else rp.RationalPoly(p) * rp.RationalPoly(q)
                r = None
                c.check("-" not in str(z), "monomial.wrapped", lambda: "%s gives %s" % (text, z))
        except (OverflowError, RuntimeError):
            c.check(sum(want.values()) > top, "monomial.degree", lambda: "%s refused" % text)
            continue
        c.check(sum(want.values()) <= top, "monomial.degree", lambda: "%s gives %s" % (text, r))
        if r is not None:
            for k, e in want.items():
                c.check(r[k] == e, "monomial.value", lambda: "%s: power of %s is %s not %s" % (text, k, r[k], e))


def families(tier):
    m = 1 if tier == "quick" else 12
    return [("scalars", scalars, 400 * m), ("mixed", mixed, 100 * m), ("monomials", monomials, 150 * m), ("polys", polys, 300 * m), ("growth", growth, 40 * m), ("changes", changes, 200 * m), ("nonfinite", nonfinite, 80 * m), ("unlike", unlike, 100 * m), ("powers", powers, 60 * m)]
