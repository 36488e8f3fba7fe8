"""C08 all views of an element agree; values are isolated from each other."""
import copy, pickle, re
from fractions import Fraction
import numpy as np
import roughpy as rp
import ref, rpx
from ref import Poly

RULE = ("random free, shuffle and Lie elements of every coefficient type and storage kind, built directly or as results of operations: iteration, every "
        "key and position, array export, printing, size, degree, is_zero and equality compared with one coefficient function; then random sequences of "
        "in-place operations on one value while scalars, items, arrays, copies and derived elements taken earlier are compared with the values they had; "
        "non-trivial: at least one nonzero coefficient")
ASSUMPTIONS = ["printing of floating coefficients shows six significant digits", "degree() of dense storage may be the degree of the stored range"]
MIN_CASES = 80
SCALE = 8
SHAPES = [(1, 1), (1, 4), (2, 1), (2, 3), (2, 5), (3, 2), (3, 3), (5, 2), (8, 1), (6, 2)]
SHAPES_P = [(1, 2), (2, 2), (2, 3), (3, 2)]


class V:
    """An element and the coefficient function it must have."""

    def __init__(self, which, kind, w, d, o, r, vt):
        self.which, self.kind, self.w, self.d, self.o, self.r, self.vt = which, kind, w, d, o, r, vt

    def read(self, o=None):
        o = self.o if o is None else o
        return rpx.read_lie(o, self.kind) if self.which == "L" else rpx.read_ft(o, self.kind)


def fresh(rng, which, kind, w, d, vt, fill=None):
    cx = rpx.ctx(w, d, kind)
    if which == "L":
        r = rpx.rlie(rng, w, d, kind, fill=fill)
        return V(which, kind, w, d, rpx.lie(cx, kind, r, vt), r, vt)
    r = rpx.rtensor(rng, w, d, kind, fill=fill)
    return V(which, kind, w, d, rpx.tensor(cx, kind, r, vt, rp.FreeTensor if which == "F" else rp.ShuffleTensor), r, vt)


def setup(c):
    rng = c.rng
    kind = rng.choice("RRDDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    return rng, rng.choice("FFLLS"), kind, w, d


def basis(x):
    cx = rpx.ctx(x.w, x.d, x.kind)
    if x.which == "L":
        b = cx.lie_basis
        return [(k, ref.parse_hall(str(k))) for k in b]
    return [(k, tuple(k.to_letters())) for k in cx.tensor_basis]


def parse_print(x, s):
    """{ coeff(key) ... } -> dict of key -> text of coefficient."""
    s = s.strip()
    if s[0] != "{" or s[-1] != "}":
        raise ValueError("unexpected print " + s)
    body = s[1:-1]
    out, i = {}, 0
    while True:
        while i < len(body) and body[i].isspace():
            i += 1
        if i >= len(body):
            return out
        if body[i] == "{":
            j = body.index("}", i) + 1
        else:
            j = body.index("(", i)
        coef = body[i:j]
        assert body[j] == "("
        depth, k = 0, j
        while True:
            depth += body[k] == "("
            depth -= body[k] == ")"
            k += 1
            if depth == 0:
                break
        key = body[j + 1:k - 1]
        if x.which == "L":
            key = ref.parse_hall(key)
        else:
            key = tuple(int(a) for a in key.split(",")) if key.strip() else ()
        if key in out:
            raise ValueError("key printed twice: " + s)
        out[key] = coef
        i = k


def views(c, x, tag="", allkeys=True):
    """Compare every view of x.o with x.r."""
    o, kind, r = x.o, x.kind, x.r
    n0 = len(c.viol)
    g = x.read()
    c.check(g == r, "iterate" + tag, lambda: rpx.diff(g, r) + " in " + c.desc)
    bs = basis(x)
    known = {k for _, k in bs}
    for it in o:
        k = ref.parse_hall(str(it.key())) if x.which == "L" else tuple(it.key().to_letters())
        c.check(k in known, "iterate.key" + tag, lambda: "iteration visits %s which is not in the basis" % (k,))
    off = 1 if x.which == "L" else 0
    for i, (key, k) in enumerate(bs):
        a, b = rpx.value(o[key], kind), rpx.value(o[i + off], kind)
        want = r.get(k, 0 if kind != "P" else Poly())
        if not (c.check(a == want, "index.key" + tag, lambda: "t[%s] is %s, not %s in %s" % (key, a, want, c.desc)) and
                c.check(b == want, "index.position" + tag, lambda: "t[%d] is %s, not %s in %s" % (i + off, b, want, c.desc))):
            break
    # printing
    try:
        p = parse_print(x, str(o))
    except (ValueError, AssertionError, IndexError) as e:
        c.fail("print.syntax" + tag, "%s: %s" % (e, str(o)[:300]))
        p = None
    if p is not None:
        ok = True
        for k in set(p) | set(r):
            if k not in p:
                ok = False
            elif kind == "R":
                ok &= Fraction(p[k]) == r.get(k, 0)
            elif kind == "P":
                ok &= rpx.parse_poly(p[k]) == r.get(k, Poly())
            else:
                want = float(r.get(k, 0))
                ok &= abs(float(p[k]) - want) <= 1e-5 * max(abs(want), 1e-300)
        c.check(ok, "print.value" + tag, lambda: "printed %s for %s" % (str(o)[:400], rpx.show(r)))
    # size, degree, emptiness
    nz = len(r)
    c.check(o.is_zero() == (nz == 0), "is_zero" + tag, lambda: "is_zero() is %s with %d nonzero coefficients in %s" % (o.is_zero(), nz, c.desc))
    deg = max([ref.hall_degree(k) if x.which == "L" else len(k) for k in r], default=0)
    dd = o.degree()
    c.check(deg <= dd <= x.d, "degree" + tag, lambda: "degree() is %s, true degree %d, depth %d in %s" % (dd, deg, x.d, c.desc))
    c.check(nz <= o.size() <= o.dimension() or x.vt != "d" and nz <= o.size(), "size" + tag, lambda: "size() %s, dimension() %s, %d nonzero in %s" % (o.size(), o.dimension(), nz, c.desc))
    c.check(o.dimension() <= len(bs), "dimension" + tag, lambda: "%s > %s" % (o.dimension(), len(bs)))
    c.check(o.size() == nz, "size.nonzero" + tag, lambda: "size() %s but %d nonzero coefficients in %s" % (o.size(), nz, c.desc))
    # array
    dense = o.storage_type == rp.DenseVector
    arr = np.array(o)
    c.check(arr.shape == (len(bs),), "array.shape" + tag, lambda: "shape %s for dimension %d" % (arr.shape, len(bs)))
    if arr.shape == (len(bs),):
        got = {}
        for v, (_, k) in zip(arr, bs):
            if kind in "DS":
                v = Fraction(float(v))
            elif kind == "R":
                v = Fraction(str(v)) if not isinstance(v, (int, float)) else Fraction(v)
            else:
                v = rpx.parse_poly(str(v))
            if v:
                got[k] = v
        c.check(got == r, "array.value" + tag if dense else "array.sparse", lambda: rpx.diff(got, r) + " in " + c.desc)
        if kind in "DS":
            c.check(arr.dtype == (np.float64 if kind == "D" else np.float32), "array.dtype" + tag, lambda: str(arr.dtype))
    return len(c.viol) == n0


def view(c):
    rng, which, kind, w, d = setup(c)
    vt = rng.choice("sd")
    x = fresh(rng, which, kind, w, d, vt)
    c.describe("view %s %s w=%d d=%d %s %s" % (which, kind, w, d, vt, rpx.show(x.r)), nontrivial=bool(x.r))
    c.check(x.o.storage_type == rpx.VT[vt], "storage_type", lambda: "%s asked for, got %s" % (vt, x.o.storage_type))
    views(c, x)
    # the element as a result of cancelling arithmetic (zeros may be stored)
    y = fresh(rng, which, kind, w, d, rng.choice("sd"), fill=3)
    o = (x.o + y.o) - y.o
    if kind in "RP" or all(Fraction(v).denominator <= 8 for t in (x.r, y.r) for v in t.values()):
        views(c, V(which, kind, w, d, o, x.r, vt), ".cancelled")
        z = x.o - x.o
        views(c, V(which, kind, w, d, z, {}, vt), ".zero")
        c.check(z == rpx.tensor(rpx.ctx(w, d, kind), kind, {}, "s", type(x.o)) if which != "L" else z == rpx.ctx(w, d, kind).zero_lie(rp.SparseVector),
                "equal.zero", lambda: "x - x differs from zero in " + c.desc)


def equality(c):
    rng, which, kind, w, d = setup(c)
    x = fresh(rng, which, kind, w, d, rng.choice("sd"))
    c.describe("equality %s %s w=%d d=%d %s %s" % (which, kind, w, d, x.vt, rpx.show(x.r)), nontrivial=bool(x.r))

    def build(r, vt):
        cx = rpx.ctx(w, d, kind)
        return rpx.lie(cx, kind, r, vt) if which == "L" else rpx.tensor(cx, kind, r, vt, type(x.o))
    for vt in "sd":
        y = build(x.r, vt)
        for a, b in ((x.o, y), (y, x.o), (y, y)):
            c.check((a == b) is True and (a != b) is False, "equal.same", lambda: "equal values in %s/%s compare unequal: %s" % (x.vt, vt, c.desc))
    keys = [k for _, k in basis(x)]
    for _ in range(6):
        r = dict(x.r)
        k = rng.choice(keys) if rng.random() < 0.7 or not r else rng.choice(list(r))
        if k in r and rng.random() < 0.4:
            del r[k]
        elif k in r:
            r[k] = r[k] + (Fraction(1, 8) if kind != "P" else Poly.const(Fraction(1, 3)))
            if not r[k]:
                del r[k]
        else:
            r[k] = rpx.rcoef(rng, kind)
        for vt in "sd":
            y = build(r, vt)
            for a, b in ((x.o, y), (y, x.o)):
                c.check((a == b) is False and (a != b) is True, "equal.different", lambda: "%s and %s compare equal (%s/%s)" % (rpx.show(x.r), rpx.show(r), x.vt, vt))


def derived(c, rng, x, log):
    """A value obtained from x: (name, getter of its present state, mutator or None)."""
    o, kind = x.o, x.kind
    bs = basis(x)
    how = rng.choice(["scalar", "scalar", "items", "array", "copy", "deepcopy", "neg", "sum", "other", "pickle", "constructed", "listed"])
    log.append(how)
    if how == "scalar":
        key, k = rng.choice(bs)
        s = o[key] if rng.random() < 0.5 else o[bs.index((key, k)) + (1 if x.which == "L" else 0)]

        def mut():
            nonlocal s
            s += rpx.scalar(kind, 1 if kind != "P" else Poly.const(1))
        return how, (lambda: rpx.value(s, kind)), mut
    if how == "items":
        its = list(o)
        return how, (lambda: [(str(i.key()), str(i.value())) for i in its]), None
    if how == "array":
        a = np.array(o) if rng.random() < 0.5 else np.asarray(o)

        def mut():
            if len(a):
                a[rng.randrange(len(a))] = 77
        return how, (lambda: [str(v) for v in a]), mut
    if how in ("copy", "deepcopy", "neg", "sum", "pickle"):
        if how == "pickle" and kind in "RP":
            how = "copy"
        if kind in "RP" and how in ("copy", "deepcopy"):
            how = "neg"
        e = {"copy": copy.copy, "deepcopy": copy.deepcopy, "neg": lambda t: -t, "sum": lambda t: t + t, "pickle": lambda t: pickle.loads(pickle.dumps(t))}[how](o)
    elif how == "other" and x.which == "L":
        e = rpx.ctx(x.w, x.d, kind).lie_to_tensor(o)
        y = V("F", kind, x.w, x.d, e, {}, "d")
        return how, (lambda: y.read()), lambda: e.__iadd__(e)
    elif how == "other" and x.which == "F":
        e = o.antipode()
    elif how == "constructed":
        e = rp.Lie(o, ctx=rpx.ctx(x.w, x.d, kind)) if x.which == "L" else -(-o)
    else:
        vals = [o[i + (1 if x.which == "L" else 0)] for i in range(len(bs))]
        e = type(o)(vals, ctx=rpx.ctx(x.w, x.d, kind))
    y = V(x.which, kind, x.w, x.d, e, {}, "d")
    return how, (lambda: y.read()), lambda: e.__imul__(rpx.scalar(kind, 3 if kind != "P" else Poly.const(3)))


def mutate(rng, x, y, log):
    """In-place change of x.o."""
    kind = x.kind
    s = rpx.scalar(kind, 2 if kind != "P" else Poly.const(2))
    op = rng.choice(["iadd", "isub", "imul", "itruediv", "imulint", "add_scal_mul", "sub_scal_div", "add_mul", "mul_smul", "imulself"])
    log.append(op)
    o = x.o
    if op == "iadd":
        o += y.o
    elif op == "isub":
        o -= y.o
    elif op == "imul":
        o *= s
    elif op == "itruediv":
        o /= s
    elif op == "imulint":
        o *= 3
    elif op == "add_scal_mul":
        o.add_scal_mul(y.o, s)
    elif op == "sub_scal_div":
        o.sub_scal_div(y.o, s)
    elif op == "add_mul":
        o.add_mul(y.o, y.o)
    elif op == "mul_smul":
        o.mul_smul(y.o, s)
    else:
        o *= y.o


def isolation(c):
    rng, which, kind, w, d = setup(c)
    if (w, d) in ((2, 5), (3, 3)):
        w, d = 2, 3
    x = fresh(rng, which, kind, w, d, rng.choice("sd"), fill=rng.choice([1, 3, 6]))
    y = fresh(rng, which, kind, w, d, rng.choice("sd"), fill=2)
    log = []
    text = "isolation %s %s w=%d d=%d %s%s %s" % (which, kind, w, d, x.vt, y.vt, rpx.show(x.r))
    live = []
    for _ in range(6):
        name, get, mut = derived(c, rng, x, log)
        live.append((name, get, mut, get()))
        before = x.read()
        act = rng.random()
        if act < 0.6:
            mutate(rng, x, y, log)
        else:
            muts = [i for i, l in enumerate(live) if l[2]]
            if muts:
                i = rng.choice(muts)
                n, g, m, _ = live[i]
                log.append("change " + n)
                m()
                live[i] = (n, g, m, g())
                now = x.read()
                c.check(now == before, "isolation.source." + n, lambda: "changing a %s taken from an element changed the element: %s; %s %s" % (n, rpx.diff(now, before), text, log))
        for n, g, m, was in live:
            now = g()
            c.check(now == was, "isolation." + n, lambda: "a %s taken earlier changed from %s to %s; %s %s" % (n, was, now, text, log))
    # objects outlive the element they came from
    x.o = None
    for n, g, m, was in live:
        now = g()
        c.check(now == was, "isolation.outlive." + n, lambda: "a %s changed when its element was released: %s to %s; %s %s" % (n, was, now, text, log))
    c.describe(text + " " + ",".join(log), nontrivial=True)


def sources(c):
    """Elements do not change when the data they were built from does."""
    rng = c.rng
    kind = rng.choice("DSD")
    w, d = rng.choice([(2, 2), (2, 3), (3, 2)])
    cx = rpx.ctx(w, d, kind)
    cls = rng.choice([rp.FreeTensor, rp.Lie, rp.ShuffleTensor])
    n = cx.lie_size() if cls is rp.Lie else cx.tensor_size()
    dt = rng.choice([np.float64, np.float32, np.int32, np.int64])
    a = np.array([rng.randint(-9, 9) for _ in range(n)], dtype=dt)
    how = rng.choice(["array", "sliced", "readonly-dtype"])
    if how == "sliced":
        base = np.zeros(2 * n, dtype=dt)
        base[::2] = a
        src = base[::2]
    else:
        src = a.copy()
    vt = rng.choice("sd")
    c.describe("sources %s %s %s %s %s" % (cls.__name__, kind, dt.__name__, how, a.tolist()), nontrivial=bool(a.any()))
    t = cls(src, ctx=cx, vector_type=rpx.VT[vt])
    before = str(t)
    snap = src.copy()
    t2 = t + t
    t *= 2
    c.check((src == snap).all(), "sources.written", "an in-place operation on the element wrote into the array it was built from: " + c.desc)
    t3 = cls(src, ctx=cx, vector_type=rpx.VT[vt])
    src[:] = 55
    c.check(str(t3) == before, "sources.shared", "the element changed with the array it was built from: %s -> %s" % (before, t3))
    c.check(t == t2, "sources.inplace", "t*=2 differs from t+t: " + c.desc)
    del src
    c.check(str(t3) == before, "sources.outlive", "the element changed when its data was released: %s -> %s" % (before, t3))


def families(tier):
    m = 1 if tier == "quick" else 12
    return [("view", view, 350 * m), ("equality", equality, 200 * m), ("isolation", isolation, 350 * m), ("sources", sources, 60 * m)]
