"""Random straight-line programs over one algebra: every statement is run on RoughPy
objects and on the reference, and after every statement ALL live objects are
compared with what the reference says they are (so a statement that changes an
operand it should not, or aliases storage, is seen as well as a wrong result)."""
from fractions import Fraction
import roughpy as rp
import ref, rpx
from ref import Poly


class Algebra:
    """One of the three algebras: how to build, read and multiply."""

    def __init__(self, which, width, depth, kind):
        self.which, self.w, self.d, self.kind = which, width, depth, kind
        self.cx = rpx.ctx(width, depth, kind)
        self.dim = ref.tdim(width, depth)

    def build(self, d, vt):
        if self.which == "L":
            return rpx.lie(self.cx, self.kind, d, vt), ref.l2t(d)
        cls = rp.FreeTensor if self.which == "F" else rp.ShuffleTensor
        return rpx.tensor(self.cx, self.kind, d, vt, cls), ref.clean(dict(d))

    def random(self, rng, style=None, fill=None):
        if self.which == "L":
            return rpx.rlie(rng, self.w, self.d, self.kind, style, fill)
        return rpx.rtensor(rng, self.w, self.d, self.kind, style, fill)

    def read(self, o):
        if self.which == "L":
            return ref.l2t(rpx.read_lie(o, self.kind))
        return rpx.read_ft(o, self.kind)

    def mul(self, a, b):
        if self.which == "F":
            return ref.mul(a, b, self.d)
        if self.which == "L":
            return ref.bracket(a, b, self.d)
        return ref.shuffle(a, b, self.d)


def norm(t, kind):
    if kind == "P":
        return 0.0
    return ref.l1(t)


class El:
    __slots__ = ("o", "r", "err", "name")

    def __init__(self, o, r, err, name):
        self.o, self.r, self.err, self.name = o, r, err, name


class Program:
    def __init__(self, case, alg, style, vts, nel):
        self.c, self.alg, self.style = case, alg, style
        self.rng = case.rng
        self.eps = rpx.EPS.get(alg.kind, 0.0)
        self.pool = []
        self.log = []
        self.n = 0
        for _ in range(nel):
            self.fresh(self.rng.choice(vts))

    def fresh(self, vt):
        d = self.alg.random(self.rng, self.style)
        o, r = self.alg.build(d, vt)
        e = El(o, r, 0.0, "t%d" % self.n)
        self.n += 1
        self.pool.append(e)
        self.log.append("%s=%s%s" % (e.name, vt or "?", rpx.show(d, 4)))

    def scal(self):
        """(RoughPy scalar argument, exact value, text)"""
        k, rng = self.alg.kind, self.rng
        how = rng.choice("ifss")
        if how == "i":
            v = Fraction(rng.choice([-3, -2, -1, 2, 3, 4, 7]))
            return int(v), v, str(v)
        if how == "f":
            v = Fraction(rng.choice([-6, -2, -1, 1, 2, 3, 10]), rng.choice([2, 4]))
            return float(v), v, str(float(v))
        v = rpx.rcoef(rng, k, self.style if k != "P" else None)
        if k == "D" and abs(v) < Fraction(1, 8):
            v = Fraction(1, 2)
        return rpx.scalar(k, v), v, "Scalar(%s)" % (v,)

    def divisor(self):
        while True:
            o, v, s = self.scal()
            if isinstance(v, Poly):
                v = Fraction(self.rng.choice([-3, 2, 5]))
                return int(v), v, str(v)
            if v:
                if self.style and self.alg.kind in "DS":      # exact mode: powers of two only
                    v = Fraction(self.rng.choice([-2, 2, 4]))
                    return self.rng.choice([int, float])(v), v, str(v)
                return o, v, s

    def size(self, r):
        if self.alg.kind == "P":
            return sum(len(c.d) for c in r.values())
        return max([c.numerator.bit_length() + c.denominator.bit_length() for c in r.values()] or [0])

    def step(self, ops):
        rng, alg, k, eps = self.rng, self.alg, self.alg.kind, self.eps
        op = rng.choice(ops)
        pool = self.pool
        a = rng.choice(pool)
        b = rng.choice(pool)
        b2 = rng.choice(pool)
        if rng.random() < 0.15:
            b = a                                   # aliasing
        na, nb = norm(a.r, k), norm(b.r, k)
        D = alg.dim
        call = self.c.call
        key = "%s.%s" % ({"F": "ft", "L": "lie", "S": "sh"}[alg.which], op)
        new = None

        def out(o, r, err, text):
            nonlocal new
            new = El(o, r, err, "t%d" % self.n)
            self.n += 1
            self.log.append("%s=%s" % (new.name, text))

        def inp(fn, r, err, text, *args):
            self.log.append(text)
            old = a.o
            res = call(key, fn, *args)
            a.o = res if res is not None else a.o
            if a.o is not old:      # a new name for the same value: both must have it
                self.pool.append(El(old, r, err, a.name + "'"))
            a.r, a.err = r, err

        if op == "add":
            out(call(key, lambda: a.o + b.o), ref.add(a.r, b.r), a.err + b.err + eps * (na + nb), "%s+%s" % (a.name, b.name))
        elif op == "sub":
            out(call(key, lambda: a.o - b.o), ref.sub(a.r, b.r), a.err + b.err + eps * (na + nb), "%s-%s" % (a.name, b.name))
        elif op == "neg":
            out(call(key, lambda: -a.o), ref.neg(a.r), a.err, "-%s" % a.name)
        elif op in ("smul", "rsmul"):
            s, v, t = self.scal()
            f = abs(float(v)) if not isinstance(v, Poly) else 0
            if op == "smul":
                o = call(key, lambda: a.o * s)
            else:
                o = call(key, lambda: s * a.o)
            out(o, ref.scale(a.r, v), (a.err + 4 * eps * na) * f, "%s*%s" % ((a.name, t) if op == "smul" else (t, a.name)))
        elif op == "sdiv":
            s, v, t = self.divisor()
            out(call(key, lambda: a.o / s), ref.div(a.r, v), (a.err + 4 * eps * na) / abs(float(v)), "%s/%s" % (a.name, t))
        elif op == "mul":
            out(call(key, lambda: a.o * b.o), alg.mul(a.r, b.r),
                2 * (a.err * (nb + b.err) + b.err * na) * D + 4 * D * eps * na * nb, "%s*%s" % (a.name, b.name))
        elif op == "iadd":
            def f():
                a.o += b.o
                return a.o
            inp(f, ref.add(a.r, b.r), a.err + b.err + eps * (na + nb), "%s+=%s" % (a.name, b.name))
        elif op == "isub":
            def f():
                a.o -= b.o
                return a.o
            inp(f, ref.sub(a.r, b.r), a.err + b.err + eps * (na + nb), "%s-=%s" % (a.name, b.name))
        elif op == "ismul":
            s, v, t = self.scal()
            f_ = abs(float(v)) if not isinstance(v, Poly) else 0

            def f():
                a.o *= s
                return a.o
            inp(f, ref.scale(a.r, v), (a.err + 4 * eps * na) * f_, "%s*=%s" % (a.name, t))
        elif op == "isdiv":
            s, v, t = self.divisor()

            def f():
                a.o /= s
                return a.o
            inp(f, ref.div(a.r, v), (a.err + 4 * eps * na) / abs(float(v)), "%s/=%s" % (a.name, t))
        elif op == "imul":
            def f():
                a.o *= b.o
                return a.o
            inp(f, alg.mul(a.r, b.r), 2 * (a.err * (nb + b.err) + b.err * na) * D + 4 * D * eps * na * nb, "%s*=%s" % (a.name, b.name))
        elif op in ("add_scal_mul", "sub_scal_mul", "add_scal_div", "sub_scal_div"):
            v = rpx.rcoef(rng, k, self.style)
            if op.endswith("div"):
                if k == "P":
                    v = Fraction(rng.choice([2, 3, -5]))
                elif self.style and k in "DS":
                    v = Fraction(rng.choice([2, -4]))
            s = rpx.scalar(k, v)
            f_ = abs(float(v)) if not isinstance(v, Poly) else 0
            x = ref.scale(b.r, v) if op.endswith("mul") else ref.div(b.r, v)
            r = ref.add(a.r, x) if op.startswith("add") else ref.sub(a.r, x)
            g = f_ if op.endswith("mul") else 1 / abs(float(v))
            inp(lambda: getattr(a.o, op)(b.o, s), r, a.err + b.err * g + 4 * eps * (na + nb * g),
                "%s.%s(%s,%s)" % (a.name, op, b.name, v))
        elif op in ("add_mul", "sub_mul"):
            x = alg.mul(b.r, b2.r)
            nb2 = norm(b2.r, k)
            r = ref.add(a.r, x) if op == "add_mul" else ref.sub(a.r, x)
            inp(lambda: getattr(a.o, op)(b.o, b2.o), r,
                a.err + 2 * D * (b.err * (nb2 + b2.err) + b2.err * nb) + 4 * D * eps * (na + nb * nb2),
                "%s.%s(%s,%s)" % (a.name, op, b.name, b2.name))
        elif op in ("mul_smul", "mul_sdiv"):
            v = rpx.rcoef(rng, k, self.style)
            if op == "mul_sdiv":
                if k == "P":
                    v = Fraction(rng.choice([2, 3, -5]))
                elif self.style and k in "DS":
                    v = Fraction(rng.choice([2, -4]))
            s = rpx.scalar(k, v)
            g = abs(float(v)) if not isinstance(v, Poly) else 0
            if op == "mul_sdiv":
                g = 1 / abs(float(v))
            x = alg.mul(a.r, b.r)
            r = ref.scale(x, v) if op == "mul_smul" else ref.div(x, v)
            inp(lambda: getattr(a.o, op)(b.o, s), r,
                g * (2 * D * (a.err * (nb + b.err) + b.err * na) + 8 * D * eps * na * nb),
                "%s.%s(%s,%s)" % (a.name, op, b.name, v))
        else:
            raise AssertionError(op)
        if new is not None:
            if len(pool) < 6:
                pool.append(new)
            else:
                pool[rng.randrange(len(pool))] = new
        if not self.verify(key):
            return False
        # keep coefficients of reasonable size
        lim = 60 if k == "P" else 4000
        for i, e in enumerate(pool):
            if self.size(e.r) > lim or (k in "DS" and norm(e.r, k) > 1e9):
                d = alg.random(rng, self.style)
                o, r = alg.build(d, rng.choice("sd"))
                pool[i] = El(o, r, 0.0, "t%d" % self.n)
                self.log.append("t%d=%s" % (self.n, rpx.show(d, 4)))
                self.n += 1
        return True

    def verify(self, key):
        for e in self.pool:
            try:
                got = self.alg.read(e.o)
            except rpx.ReadError as x:
                self.c.fail(key + ".read", "%s after: %s" % (x, "; ".join(self.log[-6:])))
                return False
            if self.alg.kind in rpx.EXACT:
                ok = got == e.r
            else:
                ok = rpx.close(got, e.r, 4 * e.err + 1e-300)
            if not self.c.check(ok, key + ".value",
                                lambda: "%s is %s, should be %s [%s] (width %d depth %d %s) after: %s" % (
                                    e.name, rpx.show(got), rpx.show(e.r), rpx.diff(got, e.r, 4),
                                    self.alg.w, self.alg.d, self.alg.kind, "; ".join(self.log[-6:]))):
                return False
        return True

    def run(self, steps, ops):
        for _ in range(steps):
            if not self.step(ops):
                return
