"""Bridge between RoughPy objects and the reference model."""
import math, re
from fractions import Fraction
import roughpy as rp
import ref
from ref import Poly

KINDS = {"R": rp.Rational, "P": rp.RationalPoly, "D": rp.DPReal, "S": rp.SPReal}
EXACT = "RP"
EPS = {"D": 2.0 ** -52, "S": 2.0 ** -23}
VT = {"s": rp.SparseVector, "d": rp.DenseVector}


def ctx(width, depth, kind):
    return rp.get_context(width, depth, KINDS[kind])


def parse_poly(s):
    s = s.strip()
    if not s.startswith("{"):
        return Poly.const(Fraction(s))
    body = s[1:-1].strip()
    d = {}
    pos = 0
    for m in re.finditer(r"\s*(-?\d+(?:/\d+)?)\(([^)]*)\)", body):
        if m.start() != pos:
            raise ValueError("cannot read polynomial " + s)
        pos = m.end()
        mono = []
        for f in m.group(2).split():
            v, _, p = f.partition("^")
            mono.append((v, int(p) if p else 1))
        k = tuple(sorted(mono))
        if k in d:
            raise ValueError("repeated monomial in " + s)
        d[k] = Fraction(m.group(1))
        if d[k] == 0:
            del d[k]
    if body[pos:].strip():
        raise ValueError("cannot read polynomial " + s)
    return Poly(d)


def value(sc, kind):
    """Exact value of an rp.Scalar."""
    if kind == "R":
        return Fraction(str(sc))
    if kind == "P":
        return parse_poly(str(sc))
    f = sc.to_float()
    if math.isfinite(f):
        return Fraction(f)
    return f


class ReadError(Exception):
    pass


def read_ft(t, kind):
    """Free or shuffle tensor -> {word: coeff} by iteration."""
    r = {}
    for it in t:
        w = tuple(it.key().to_letters())
        if w in r:
            raise ReadError("word %s is visited twice" % (w,))
        v = value(it.value(), kind)
        if v:
            r[w] = v
    return r


def read_lie(l, kind):
    r = {}
    for it in l:
        h = ref.parse_hall(str(it.key()))
        if h in r:
            raise ReadError("Hall element %s is visited twice" % (h,))
        v = value(it.value(), kind)
        if v:
            r[h] = v
    return r


_one = {}


def _unit(kind):
    if kind not in _one:
        _one[kind] = ctx(1, 1, kind)
    return _one[kind]


def scalar(kind, x):
    """An rp.Scalar of the kind's type with the given value."""
    c = _unit(kind)
    if kind in "DS":
        return rp.FreeTensor([float(x)], ctx=c)[0]
    if kind == "R":
        return _rat(c, Fraction(x))[0]
    x = Poly.of(x)
    acc = rp.FreeTensor([0], ctx=c)
    for m, q in x.d.items():
        p = rp.PolynomialScalar({rp.Monomial({v: e for v, e in m}) if m else rp.Monomial({}): 1})
        acc = acc + rp.FreeTensor([p], ctx=c) * _rat(c, q)
    return acc[0]


_LIM = 2 ** 62


def _rat(c, q):
    return _int(c, q.numerator) / q.denominator if q.denominator < _LIM else _int(c, q.numerator) * _inv(c, q.denominator)


def _int(c, n):
    if abs(n) < _LIM:
        return rp.FreeTensor([n], ctx=c)
    hi, lo = divmod(abs(n), 2 ** 60)
    r = _int(c, hi) * rp.FreeTensor([2 ** 60], ctx=c) + rp.FreeTensor([lo], ctx=c)
    return r if n > 0 else -r


def _inv(c, n):
    raise ValueError("denominator too large")


def tensor(cx, kind, d, vt=None, cls=None):
    """Build from {word: coeff}."""
    cls = cls or rp.FreeTensor
    w, dep = cx.width, cx.depth
    data = {rp.TensorKey(*k, width=w, depth=dep): scalar(kind, v) for k, v in d.items()}
    kw = {} if vt is None else dict(vector_type=VT[vt])
    if not data:
        return cls(ctx=cx, **kw) if vt != "d" else cls([0], ctx=cx, **kw)
    return cls(data, ctx=cx, **kw)


_hall = {}


def hall_list(width, depth):
    """Hall elements in basis order, as the library enumerates them."""
    k = (width, depth)
    if k not in _hall:
        _hall[k] = [ref.parse_hall(str(x)) for x in ctx(width, depth, "R").lie_basis]
    return _hall[k]


def lie(cx, kind, d, vt=None):
    """Build from {hall: coeff}."""
    hl = hall_list(cx.width, cx.depth)
    z = 0
    vals, last = [], 0
    for i, h in enumerate(hl):
        if h in d:
            last = i + 1
        vals.append(d.get(h, z))
    vals = vals[:last]
    kw = {} if vt is None else dict(vector_type=VT[vt])
    if not vals:
        return rp.Lie([0], ctx=cx, **kw)
    return rp.Lie([scalar(kind, v) for v in vals], ctx=cx, **kw)


# ---- generated coefficients ----------------------------------------------

VARS = ["x1", "x2", "y1", "z3"]


def rcoef(rng, kind, style=None):
    """A random nonzero coefficient."""
    while True:
        if kind == "R":
            s = style or rng.choice("iiqqdb")
            if s == "i":
                v = Fraction(rng.randint(-5, 5))
            elif s == "q":
                v = Fraction(rng.randint(-9, 9), rng.choice([1, 2, 3, 4, 5, 6, 7, 9]))
            elif s == "d":
                v = Fraction(rng.randint(-40, 40), 8)
            else:
                v = Fraction(rng.randint(-2 ** 61, 2 ** 61), rng.choice([1, 3, 2 ** 31 - 1]))
        elif kind == "P":
            v = Poly()
            for _ in range(rng.choice([1, 1, 1, 2])):
                m = {}
                for _ in range(rng.choice([0, 1, 1, 2])):
                    m[rng.choice(VARS)] = rng.choice([1, 1, 2])
                v = v + Poly({tuple(sorted(m.items())): Fraction(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 1, 2, 3]))})
        elif kind == "D":
            s = style or rng.choice("iddu")
            if s == "i":
                v = Fraction(rng.randint(-5, 5))
            elif s == "d":
                v = Fraction(rng.randint(-24, 24), 8)
            else:
                v = Fraction(rng.uniform(-2, 2))
        else:
            s = style or rng.choice("iid")
            v = Fraction(rng.randint(-4, 4), 1 if s == "i" else 4)
        if v:
            return v


def rtensor(rng, width, depth, kind, style=None, fill=None, const=None, maxdeg=None):
    """A random sparse reference tensor; fill = expected number of words."""
    d = {}
    maxdeg = depth if maxdeg is None else maxdeg
    n = fill if fill is not None else rng.choice([0, 1, 2, 3, 5, 9, 20])
    for _ in range(n):
        k = rng.randint(0, maxdeg)
        w = tuple(rng.randint(1, width) for _ in range(k))
        d[w] = rcoef(rng, kind, style)
    if const is not None:
        d.pop((), None)
        if const:
            d[()] = Fraction(const) if kind != "P" else Poly.const(const)
    return d


def rlie(rng, width, depth, kind, style=None, fill=None, maxdeg=None):
    hl = hall_list(width, depth)
    if maxdeg is not None:
        hl = [h for h in hl if ref.hall_degree(h) <= maxdeg]
    n = fill if fill is not None else rng.choice([0, 1, 1, 2, 3, 4, 7])
    d = {}
    for _ in range(n):
        # letters more often than deep brackets
        h = rng.choice(hl) if rng.random() < 0.5 else rng.choice(hl[:width])
        d[h] = rcoef(rng, kind, style)
    return d


def close(a, b, tol):
    """Compare coefficient dicts of float kinds within an absolute tolerance."""
    for k in set(a) | set(b):
        x, y = a.get(k, 0), b.get(k, 0)
        if isinstance(x, float) or isinstance(y, float):       # nan / inf
            return False
        if abs(x - y) > tol:
            return False
    return True


def same(got, want, kind, scale=1.0, ops=64):
    """Exact for exact kinds; within ops*eps*scale for floats."""
    if kind in EXACT:
        return got == want
    return close(got, want, EPS[kind] * ops * max(1.0, float(scale)))


def show(d, n=8):
    items = sorted(d.items(), key=lambda x: (len(str(x[0])), str(x[0])))
    return "{" + ", ".join("%s: %s" % (k, float(v) if isinstance(v, Fraction) and v.denominator > 10 ** 9 else v)
                           for k, v in items[:n]) + (", ..." if len(items) > n else "") + "}"


def diff(got, want, n=6):
    ks = [k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)]
    ks.sort(key=lambda x: (len(str(x)), str(x)))
    return "; ".join("%s: got %s want %s" % (k, got.get(k, 0), want.get(k, 0)) for k in ks[:n]) + (" (+%d more)" % (len(ks) - n) if len(ks) > n else "")
