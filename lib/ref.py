"""Reference model: exact truncated tensor, shuffle and Lie algebra over Fractions or
polynomials, written from the definitions only (no RoughPy code or tables).

A tensor is a dict {word (tuple of letters from 1): coefficient}, zeros dropped.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import product as _product
import math, re


class Poly:
    """Commutative polynomial with Fraction coefficients: {monomial: coeff},
    monomial = sorted tuple of (variable name, power)."""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def mono(**powers):
        return Poly({tuple(sorted(powers.items())): Fraction(1)})

    @staticmethod
    def of(x):
        return x if isinstance(x, Poly) else Poly.const(x)

    def __add__(self, o):
        o = Poly.of(o)
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = Fraction(o)
            return Poly({m: c * o for m, c in self.d.items()} if o else {})
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = dict(m)
                for v, p in n:
                    k[v] = k.get(v, 0) + p
                k = tuple(sorted(k.items()))
                s = r.get(k, 0) + c * e
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return Poly(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Fraction(o)
        return Poly({m: c / o for m, c in self.d.items()})

    def __eq__(self, o):
        return self.d == Poly.of(o).d

    def __bool__(self):
        return bool(self.d)

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return "{" + " + ".join("%s*%s" % (c, " ".join("%s^%d" % vp for vp in m) or "1")
                                for m, c in sorted(self.d.items())) + "}"


# ---- tensors -------------------------------------------------------------

def clean(t):
    return {w: c for w, c in t.items() if c}


def words(width, depth):
    for d in range(depth + 1):
        yield from _product(range(1, width + 1), repeat=d)


def tdim(width, depth):
    return sum(width ** d for d in range(depth + 1))


def trunc(t, depth):
    return {w: c for w, c in t.items() if len(w) <= depth}


def add(a, b):
    r = dict(a)
    for w, c in b.items():
        r[w] = r[w] + c if w in r else c
    return clean(r)


def scale(a, s):
    return clean({w: c * s for w, c in a.items()})


def div(a, s):
    return {w: c / s for w, c in a.items()}


def neg(a):
    return {w: -c for w, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def mul(a, b, depth):
    r = {}
    bl = sorted(b.items(), key=lambda x: len(x[0]))
    for u, c in a.items():
        room = depth - len(u)
        for v, e in bl:
            if len(v) > room:
                break
            w = u + v
            p = c * e
            r[w] = r[w] + p if w in r else p
    return clean(r)


UNIT = {(): Fraction(1)}


@lru_cache(maxsize=200000)
def shuffle_words(u, v):
    """Interleavings of u and v with multiplicity, as a tuple of (word, count)."""
    if not u:
        return ((v, 1),)
    if not v:
        return ((u, 1),)
    r = {}
    for w, n in shuffle_words(u[1:], v):
        w = u[:1] + w
        r[w] = r.get(w, 0) + n
    for w, n in shuffle_words(u, v[1:]):
        w = v[:1] + w
        r[w] = r.get(w, 0) + n
    return tuple(r.items())


def _bilinear(a, b, depth, f):
    r = {}
    for u, c in a.items():
        for v, e in b.items():
            if len(u) + len(v) > depth:
                continue
            p = c * e
            for w, n in f(u, v):
                q = p * n
                r[w] = r[w] + q if w in r else q
    return clean(r)


def shuffle(a, b, depth):
    return _bilinear(a, b, depth, shuffle_words)


def half_words(u, v):
    """Interleavings in which u's first letter comes first (u nonempty)."""
    return tuple((u[:1] + w, n) for w, n in shuffle_words(u[1:], v))


def half_shuffle(a, b, depth):
    """Left half-shuffle of the parts of a of positive degree with b."""
    return _bilinear({w: c for w, c in a.items() if w}, b, depth, half_words)


def adjoint(t, s):
    """w -> <s, t*w>"""
    r = {}
    for u, c in t.items():
        n = len(u)
        for v, e in s.items():
            if v[:n] == u:
                w = v[n:]
                p = c * e
                r[w] = r[w] + p if w in r else p
    return clean(r)


def antipode(a):
    return {w[::-1]: (c if len(w) % 2 == 0 else -c) for w, c in a.items()}


def exp(a, depth):
    """sum a^n/n! up to n = depth (truncated series)"""
    r, p = dict(UNIT), dict(UNIT)
    for n in range(1, depth + 1):
        p = div(mul(p, a, depth), n)
        if not p:
            break
        r = add(r, p)
    return r


def log(a, depth):
    x = dict(a)
    x.pop((), None)
    r, p = {}, dict(UNIT)
    for n in range(1, depth + 1):
        p = mul(p, x, depth)
        if not p:
            break
        r = add(r, div(p, n if n % 2 else -n))
    return r


def bracket(a, b, depth):
    return sub(mul(a, b, depth), mul(b, a, depth))


def dynkin(a):
    """Right-bracketing projection divided by degree: the identity on Lie elements."""
    r = {}
    for w, c in a.items():
        if not w:
            continue
        for v, n in _rbracket(w):
            q = c * n / len(w)
            r[v] = r[v] + q if v in r else q
    return clean(r)


@lru_cache(maxsize=100000)
def _rbracket(w):
    if len(w) == 1:
        return ((w, 1),)
    r = {}
    for v, n in _rbracket(w[1:]):
        r[w[:1] + v] = r.get(w[:1] + v, 0) + n
        r[v + w[:1]] = r.get(v + w[:1], 0) - n
    return tuple((v, n) for v, n in r.items() if n)


def is_lie(a):
    return () not in a and sub(dynkin(a), a) == {}


def cbh(ts, depth):
    """log of the ordered product of exponentials of tensors"""
    p = dict(UNIT)
    for t in ts:
        p = mul(p, exp(t, depth), depth)
    return log(p, depth)


# ---- Hall elements, written as nested pairs of letters --------------------

def parse_hall(s):
    """'[1,[1,2]]' -> (1, (1, 2)); '3' -> 3"""
    s = s.strip()
    pos = 0

    def rd():
        nonlocal pos
        if s[pos] in "[(":
            pos += 1
            a = rd()
            assert s[pos] == ",", s
            pos += 1
            while s[pos] == " ":
                pos += 1
            b = rd()
            assert s[pos] in "])", s
            pos += 1
            return (a, b)
        m = re.match(r"\d+", s[pos:])
        pos += m.end()
        return int(m.group())
    r = rd()
    assert pos == len(s), s
    return r


def hall_degree(h):
    return 1 if isinstance(h, int) else hall_degree(h[0]) + hall_degree(h[1])


@lru_cache(maxsize=100000)
def _hall_expand(h):
    if isinstance(h, int):
        return (((h,), 1),)
    a, b = _hall_expand(h[0]), _hall_expand(h[1])
    r = {}
    for u, m in a:
        for v, n in b:
            r[u + v] = r.get(u + v, 0) + m * n
            r[v + u] = r.get(v + u, 0) - m * n
    return tuple((w, n) for w, n in r.items() if n)


def hall_expand(h):
    return {w: Fraction(n) for w, n in _hall_expand(h)}


def hall_str(h):
    return str(h) if isinstance(h, int) else "[%s,%s]" % (hall_str(h[0]), hall_str(h[1]))


def l2t(lie):
    """{hall: coeff} -> tensor"""
    r = {}
    for h, c in lie.items():
        for w, n in _hall_expand(h):
            q = c * n
            r[w] = r[w] + q if w in r else q
    return clean(r)


def mobius(n):
    r, p = 1, 2
    while p * p <= n:
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            r = -r
        p += 1
    return -r if n > 1 else r


def witt(width, d):
    """Dimension of degree d of the free Lie algebra (Witt's formula)."""
    return sum(mobius(k) * width ** (d // k) for k in range(1, d + 1) if d % k == 0) // d


def lie_dim(width, depth):
    return sum(witt(width, d) for d in range(1, depth + 1))


def maxabs(t):
    return max([abs(float(c)) for c in t.values()] or [0.0])


def l1(t):
    return float(sum(abs(c) for c in t.values()))
