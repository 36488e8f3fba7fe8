"""C07 contexts are unique per configuration, conversion between them is faithful."""
from fractions import Fraction
import numpy as np
import roughpy as rp
import ref, rpx
from ref import Poly

RULE = ("random request sequences of contexts (equality must coincide with equality of width, depth, coefficient type) and random elements and "
        "streams moved between contexts of every pair of types and depths through every conversion path (construction from an element, keys of "
        "another depth, lie_to_tensor, tensor_to_lie, cbh, to_logsignature, stream queries with ctx=, depth=, dtype=), compared with the "
        "truncated, converted value; arithmetic mixing contexts must raise or give the converted answer and leave its operands alone; "
        "non-trivial: the element is nonzero and source and target context differ")
ASSUMPTIONS = ["rational to floating conversion is judged to a few units in the last place of the target type",
               "an operation that mixes contexts may either raise an exception or convert its operand"]
MIN_CASES = 80
SCALE = 8
SHAPES = {1: 5, 2: 5, 3: 4, 4: 3, 5: 2, 7: 2}
EPSK = {"R": 0.0, "P": 0.0, "D": 2.0 ** -52, "S": 2.0 ** -23}


def shape(rng, w=None, hi=None):
    w = w or rng.choice(list(SHAPES))
    return w, rng.randint(1, min(SHAPES[w], hi or 9))


def contexts(c):
    rng = c.rng
    reqs = []
    for _ in range(14):
        if reqs and rng.random() < 0.4:
            reqs.append(rng.choice(reqs))
        else:
            w, d = shape(rng)
            reqs.append((w, d, rng.choice("RPDS")))
    c.describe("contexts %s" % (reqs,))
    objs = [rpx.ctx(*r) for r in reqs]
    for r, o in zip(reqs, objs):
        c.check((o.width, o.depth, o.ctype) == (r[0], r[1], rpx.KINDS[r[2]]), "context.attributes", lambda: "%s reports %s %s %s" % (r, o.width, o.depth, o.ctype))
        c.check(o.tensor_size() == ref.tdim(r[0], r[1]) and o.lie_size() == ref.lie_dim(r[0], r[1]), "context.sizes", lambda: "%s: %s %s" % (r, o.tensor_size(), o.lie_size()))
    for r, o in zip(reqs, objs):
        for s, p in zip(reqs, objs):
            c.check((o == p) == (r == s), "context.eq", lambda: "%s == %s gives %s" % (r, s, o == p))
            c.check((o != p) == (r != s), "context.ne", lambda: "%s != %s gives %s" % (r, s, o != p))
    # elements report their context
    r, o = rng.choice(list(zip(reqs, objs)))
    t = rpx.tensor(o, r[2], rpx.rtensor(rng, r[0], r[1], r[2]), rng.choice("sd"))
    l = rpx.lie(o, r[2], rpx.rlie(rng, r[0], r[1], r[2]), rng.choice("sd"))
    for x in (t, l, t + t, l * l, t.antipode(), o.lie_to_tensor(l), o.zero_lie(rp.DenseVector)):
        c.check(x.context == o and x.width == r[0] and x.max_degree == r[1] and x.dtype == rpx.KINDS[r[2]], "element.context",
                lambda: "%s of %s reports %s w=%s d=%s %s" % (type(x).__name__, r, x.context, x.width, x.max_degree, x.dtype))


def _coef(rng, kind, dst):
    """A coefficient of `kind`; constant when a polynomial has to become a number."""
    if kind == "P" and dst != "P":
        return Poly.const(Fraction(rng.choice([-3, -2, -1, 1, 2, 5]), rng.choice([1, 2, 3])))
    return rpx.rcoef(rng, kind)


def recoef(rng, d, kind, dst):
    return {k: _coef(rng, kind, dst) if kind == "P" else v for k, v in d.items()}


def conv(d, dst):
    """Exact value in the target's number system, rounding left to the comparison."""
    out = {}
    for k, v in d.items():
        if dst == "P":
            v = Poly.of(v)
        elif isinstance(v, Poly):
            assert set(v.d) <= {()}
            v = v.d.get((), Fraction(0))
        if v:
            out[k] = v
    return out


def agree(got, want, src, dst, scale=1.0, ops=64):
    if dst in "RP" and src in "RP":
        return got == want
    if dst == "P":
        return all(Poly.of(got.get(k, Poly())) == Poly.of(want.get(k, Poly())) for k in set(got) | set(want)) if src in "RP" else \
            all(_pclose(got.get(k, Poly()), want.get(k, Poly()), ops * EPSK[src] * scale) for k in set(got) | set(want))
    e = max(EPSK[src], EPSK[dst])
    return rpx.close(got, want, e * ops * max(1.0, float(scale)))


def _pclose(a, b, tol):
    x = Poly.of(a) + Poly.of(b) * Fraction(-1)
    return all(abs(q) <= tol for q in x.d.values())


def exact_copy(got, want, src, dst):
    """One conversion of each coefficient: exact unless the target must round."""
    for k in set(got) | set(want):
        g, w = got.get(k, 0), want.get(k, 0)
        if dst in "RP":
            if g != w:
                return False
        else:
            if isinstance(g, float):
                return False
            if abs(Fraction(g) - w) > abs(w) * Fraction(2 ** -52 if dst == "D" else 2 ** -23):
                return False
    return True


def setup(c):
    rng = c.rng
    src, dst = rng.choice("RRDDSSP"), rng.choice("RRDDSSP")
    hi = 3 if "P" in src + dst else None
    w, d1 = shape(rng, hi=hi)
    if hi and w > 3:
        w, d1 = 2, rng.randint(1, 3)
    d2 = shape(rng, w, hi)[1]
    if rng.random() < 0.3:
        d2 = d1
    return rng, src, dst, w, d1, d2, rpx.ctx(w, d1, src), rpx.ctx(w, d2, dst)


def _cls_ctx(c, x, cy, key):
    c.check(x.context == cy, key + ".context", lambda: "result lives in %s, asked for %s" % (x.context, cy))


def convert(c):
    rng, src, dst, w, d1, d2, cx, cy = setup(c)
    vt = rng.choice("sd")
    l = recoef(rng, rpx.rlie(rng, w, d1, src, "q" if src == "R" else None), src, dst)
    L = rpx.lie(cx, src, l, vt)
    t = recoef(rng, rpx.rtensor(rng, w, d1, src, "q" if src == "R" else None), src, dst)
    T = rpx.tensor(cx, src, t, vt)
    c.describe("convert w=%d %s%d->%s%d %s %s %s" % (w, src, d1, dst, d2, vt, rpx.show(l), rpx.show(t)), nontrivial=bool(l or t) and (src, d1) != (dst, d2))
    lw = {h: v for h, v in conv(l, dst).items() if ref.hall_degree(h) <= d2}
    # element from element
    kw = {} if rng.random() < 0.5 else dict(vector_type=rpx.VT[rng.choice("sd")])
    X = c.call("Lie(Lie)", rp.Lie, L, ctx=cy, **kw)
    g = rpx.read_lie(X, dst)
    c.check(exact_copy(g, lw, src, dst), "Lie(Lie).value", lambda: rpx.diff(g, lw) + " in " + c.desc)
    _cls_ctx(c, X, cy, "Lie(Lie)")
    # embedding and back
    tl = ref.trunc(ref.l2t(conv(l, dst)), d2)
    s = 1 + (ref.l1(tl) if dst != "P" else 0)
    Y = c.call("lie_to_tensor", cy.lie_to_tensor, L)
    g = rpx.read_ft(Y, dst)
    c.check(agree(g, tl, src, dst, s), "lie_to_tensor.value", lambda: rpx.diff(g, tl) + " in " + c.desc)
    _cls_ctx(c, Y, cy, "lie_to_tensor")
    Z = c.call("tensor_to_lie", cy.tensor_to_lie, cx.lie_to_tensor(L))
    g = rpx.read_lie(Z, dst)
    c.check(agree(g, lw, src, dst, s), "tensor_to_lie.value", lambda: rpx.diff(g, lw) + " in " + c.desc)
    _cls_ctx(c, Z, cy, "tensor_to_lie")
    # cbh of one
    B = c.call("cbh", cy.cbh, [L], rpx.VT[rng.choice("sd")])
    g = rpx.read_lie(B, dst)
    bs = s ** (d2 + 1)
    if dst in "RP" or bs < 1e6:
        c.check(agree(g, lw, src, dst, bs, 256), "cbh.value", lambda: rpx.diff(g, lw) + " in " + c.desc)
    _cls_ctx(c, B, cy, "cbh")
    # keys of another depth
    K = {rp.TensorKey(*k, width=w, depth=d1): rpx.scalar(src, v) for k, v in t.items() if len(k) <= d2}
    tw = {k: v for k, v in conv(t, dst).items() if len(k) <= d2}
    if K:
        for cls in (rp.FreeTensor, rp.ShuffleTensor):
            N = c.call("from_keys", cls, K, ctx=cy, **kw)
            g = rpx.read_ft(N, dst)
            c.check(exact_copy(g, tw, src, dst), "from_keys.value", lambda: rpx.diff(g, tw) + " in " + c.desc)
            _cls_ctx(c, N, cy, "from_keys")
    # sources untouched
    g = rpx.read_lie(L, src)
    c.check(g == l, "source.changed", lambda: rpx.diff(g, l))
    g = rpx.read_ft(T, src)
    c.check(g == t, "source.changed", lambda: rpx.diff(g, t))


def logsig(c):
    """to_logsignature: log of the tensor in the target context (group-like argument)."""
    rng, src, dst, w, d1, d2, cx, cy = setup(c)
    l = recoef(rng, rpx.rlie(rng, w, d1, src, "i" if src in "RD" else None, fill=rng.choice([1, 2, 3])), src, dst)
    t = ref.l2t(l)
    if src not in "P" and ref.l1(t) > 12:
        l = dict(list(l.items())[:1])
        t = ref.l2t(l)
    c.describe("logsig w=%d %s%d->%s%d %s" % (w, src, d1, dst, d2, rpx.show(l)), nontrivial=bool(l) and (src, d1) != (dst, d2))
    L = rpx.lie(cx, src, l, rng.choice("sd"))
    sig = cx.lie_to_tensor(L).exp()
    if d2 > d1:
        # the truncated signature extended by zeros is not group-like at the new depth: only the common part is defined
        pass
    X = c.call("to_logsignature", cy.to_logsignature, sig)
    g = {h: v for h, v in rpx.read_lie(X, dst).items() if ref.hall_degree(h) <= d1}
    lw = {h: v for h, v in conv(l, dst).items() if ref.hall_degree(h) <= min(d1, d2)}
    s = (2 + (ref.l1(ref.l2t(conv(l, dst))) if dst != "P" else 0)) ** (max(d1, d2) + 1)
    if s < 1e5 or dst in "RP" and src in "RP":
        c.check(agree(g, lw, src, dst, s, 256), "to_logsignature.value", lambda: rpx.diff(g, lw) + " in " + c.desc)
    _cls_ctx(c, X, cy, "to_logsignature")


OPS = [("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)]


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


IOPS = [("iadd", iadd, 0), ("isub", isub, 1), ("imul", imul, 2), ("add_mul", lambda a, b: a.add_mul(b, b), None), ("sub_mul", lambda a, b: a.sub_mul(b, b), None)]


def mixing(c):
    """Arithmetic between contexts: an exception, or the answer for the converted operand."""
    rng = c.rng
    which = rng.choice("FFLS")
    src, dst = rng.choice("RDSP"), rng.choice("RDSP")
    w = rng.choice([1, 2, 3])
    w2 = w if rng.random() < 0.5 else rng.choice([1, 2, 3, 4])
    d1, d2 = rng.randint(1, 3), rng.randint(1, 3)
    cx, cy = rpx.ctx(w, d1, src), rpx.ctx(w2, d2, dst)

    def build(cc, kind, ww, dd):
        if which == "L":
            r = recoef(rng, rpx.rlie(rng, ww, dd, kind, fill=rng.choice([1, 2, 3])), kind, "R")
            return r, rpx.lie(cc, kind, r, rng.choice("sd"))
        r = recoef(rng, rpx.rtensor(rng, ww, dd, kind, fill=rng.choice([1, 2, 3])), kind, "R")
        return r, rpx.tensor(cc, kind, r, rng.choice("sd"), rp.FreeTensor if which == "F" else rp.ShuffleTensor)
    read = rpx.read_lie if which == "L" else rpx.read_ft
    a, A = build(cx, src, w, d1)
    b, B = build(cy, dst, w2, d2)
    c.describe("mixing %s %s%d,%d x %s%d,%d %s %s" % (which, src, w, d1, dst, w2, d2, rpx.show(a), rpx.show(b)), nontrivial=(src, w, d1) != (dst, w2, d2))
    same = (src, w, d1) == (dst, w2, d2)

    def want(op):
        """Result in A's context, over expansions."""
        if w2 != w:
            return None
        x, y = (ref.l2t(a), ref.l2t(conv(b, src))) if which == "L" else (conv(a, src), conv(b, src))
        y = ref.trunc(y, d1)
        if op in ("add", "iadd"):
            return ref.add(x, y)
        if op in ("sub", "isub"):
            return ref.add(x, ref.neg(y))
        if op in ("mul", "imul"):
            return ref.mul(x, y, d1) if which == "F" else ref.bracket(x, y, d1) if which == "L" else ref.shuffle(x, y, d1)

    for name, fn in OPS:
        try:
            r = fn(A, B)
        except Exception as e:  # noqa: BLE001
            c.check(not same, "mixing.%s.same-context-raises" % name, lambda: "%s in %s" % (e, c.desc))
            continue
        finally:
            g = read(A, src)
            c.check(g == a, "mixing.%s.left-operand" % name, lambda: rpx.diff(g, a))
            g = read(B, dst)
            c.check(g == b, "mixing.%s.right-operand" % name, lambda: rpx.diff(g, b))
        if name in ("eq", "ne"):
            if w == w2 and src == dst and d1 == d2:
                c.check(r == ((a == b) == (name == "eq")), "mixing.eq.value", c.desc)
            elif w2 != w and (a or b):
                c.check(r == (name == "ne"), "mixing.eq.width", "equal across widths: " + c.desc)
            continue
        wv = want(name)
        if wv is None:
            c.fail("mixing.%s.width" % name, "widths %d and %d were combined to %s" % (w, w2, r))
            continue
        g = ref.l2t(read(r, src)) if which == "L" else read(r, src)
        c.check(agree(g, wv, dst, src, 1 + (ref.l1(wv) if src != "P" else 0)), "mixing.%s.value" % name, lambda: rpx.diff(g, wv) + " in " + c.desc)
    for name, fn, _ in IOPS:
        try:
            fn(A, B)
            done = True
        except Exception as e:  # noqa: BLE001
            done = False
            c.check(not same or name.endswith("mul") , "mixing.%s.same-context-raises" % name, lambda: "%s in %s" % (e, c.desc))
        g = read(B, dst)
        c.check(g == b, "mixing.%s.right-operand" % name, lambda: rpx.diff(g, b))
        if not done:
            g = read(A, src)
            c.check(g == a, "mixing.%s.left-after-error" % name, lambda: rpx.diff(g, a))
        else:
            if w != w2:
                c.fail("mixing.%s.width" % name, "widths %d and %d were combined" % (w, w2))
            break


def widths(c):
    """Different widths are rejected by every conversion path."""
    rng = c.rng
    src, dst = rng.choice("RDSP"), rng.choice("RDSP")
    w, w2 = rng.sample([1, 2, 3, 4, 5], 2)
    d1, d2 = rng.randint(1, 2), rng.randint(1, 2)
    cx, cy = rpx.ctx(w, d1, src), rpx.ctx(w2, d2, dst)
    l = recoef(rng, rpx.rlie(rng, w, d1, src, fill=2), src, "R")
    t = recoef(rng, rpx.rtensor(rng, w, d1, src, fill=3, maxdeg=1, const=0), src, "R")
    vt = rng.choice("sd")
    L, T = rpx.lie(cx, src, l, vt), rpx.tensor(cx, src, t, vt)
    c.describe("widths %d->%d %s->%s %s %s" % (w, w2, src, dst, rpx.show(l), rpx.show(t)), nontrivial=bool(l))
    k = tuple(rng.randint(1, w) for _ in range(rng.randint(1, d1)))
    K = rp.TensorKey(*k, width=w, depth=d1)
    tries = {
        "lie_to_tensor": lambda: cy.lie_to_tensor(L), "tensor_to_lie": lambda: cy.tensor_to_lie(T), "cbh": lambda: cy.cbh([L], rp.DenseVector),
        "cbh2": lambda: cy.cbh([rpx.lie(cy, dst, {1: ref.Fraction(1)} if dst != "P" else {1: Poly.const(1)}, "d"), L], rp.SparseVector),
        "to_logsignature": lambda: cy.to_logsignature(T), "Lie": lambda: rp.Lie(L, ctx=cy),
        "key": lambda: rp.FreeTensor({K: 1}, ctx=cy),
    }
    for name, fn in tries.items():
        try:
            r = fn()
        except Exception:  # noqa: BLE001
            c.check(True, "x")
        else:
            c.check(False, "widths." + name, lambda: "width %d accepted by a context of width %d: %s from %s %s %s" % (w, w2, r, rpx.show(l), rpx.show(t), k))
    g = rpx.read_lie(L, src)
    c.check(g == l, "widths.source", lambda: rpx.diff(g, l))


def queries(c):
    """Stream queries asked for in another depth, type or context."""
    rng = c.rng
    src = rng.choice("RDDS")
    w = rng.choice([1, 2, 3])
    d1 = rng.randint(1, 4 if w < 3 else 3)
    n = rng.randint(1, 5)
    cx = rpx.ctx(w, d1, src)
    inc = [[Fraction(rng.randint(-6, 6), 4) for _ in range(w)] for _ in range(n)]
    idx = sorted(rng.sample(range(16), n))
    data = np.array([[float(x) for x in r] for r in inc], dtype=np.float64 if src != "S" else np.float32)
    s = rp.LieIncrementStream.from_increments(data, indices=np.array([i / 16 for i in idx]), ctx=cx, resolution=4)
    c.describe("queries w=%d %s%d n=%d %s @%s" % (w, src, d1, n, inc, idx), nontrivial=any(any(r) for r in inc))
    full = {}

    def want(d, a, b):
        if d not in full:
            full[d] = None
        els = [{(j + 1,): x for j, x in enumerate(r) if x} for r, i in zip(inc, idx) if a <= i < b]
        return ref.cbh(els, d)
    for _ in range(8):
        dst, dd = rng.choice("RDS"), rng.randint(1, 4 if w < 3 else 3)
        a, b = sorted(rng.sample(range(17), 2))
        iv = rp.RealInterval(a / 16, b / 16)
        how = rng.choice(["ctx", "depth", "dtype", "both"])
        if how == "ctx":
            kw, k, d = dict(ctx=rpx.ctx(w, dd, dst)), dst, dd
        elif how == "depth":
            kw, k, d = dict(depth=dd), src, dd
        elif how == "dtype":
            kw, k, d = dict(dtype=rpx.KINDS[dst]), dst, d1
        else:
            kw, k, d = dict(depth=dd, dtype=rpx.KINDS[dst]), dst, dd
        lt = want(d, a, b)
        sc = (1 + sum(float(abs(x)) for r in inc for x in r)) ** (d + 1)
        text = "%s over [%d,%d)/16 of %s" % (kw, a, b, c.desc)
        L = c.call("query.log_signature", s.log_signature, iv, **kw)
        g = ref.l2t(rpx.read_lie(L, k))
        c.check(agree(g, lt, src, k, sc), "query.log_signature.value", lambda: rpx.diff(g, lt) + " in " + text)
        c.check(L.context == rpx.ctx(w, d, k), "query.log_signature.context", lambda: "%s for %s" % (L.context, text))
        S = c.call("query.signature", s.signature, iv, **kw)
        g2 = rpx.read_ft(S, k)
        st = ref.exp(lt, d)
        c.check(agree(g2, st, src, k, sc), "query.signature.value", lambda: rpx.diff(g2, st) + " in " + text)
        c.check(S.context == rpx.ctx(w, d, k), "query.signature.context", lambda: "%s for %s" % (S.context, text))
    for kw in (dict(ctx=rpx.ctx(w + 1, d1, src)),):
        try:
            s.signature(rp.RealInterval(0, 1), **kw)
        except Exception:  # noqa: BLE001
            c.check(True, "x")
        else:
            c.check(False, "query.width", "a query in a context of width %d was accepted by a stream of width %d" % (w + 1, w))


def stream_of(rng, kind, w, d, k, cx):
    def inc():
        return [rpx.scalar(k, Fraction(rng.randint(-6, 6), 4)) for _ in range(w)]
    if kind == "inc":
        return rp.LieIncrementStream.from_increments([[float(x.to_float()) if hasattr(x, "to_float") else float(x) for x in inc()] for _ in range(4)],
                                                     indices=np.array([0.1, 0.4, 0.5, 0.9]), ctx=cx, resolution=4)
    if kind == "pieces":
        cuts = sorted(rng.sample([0, .25, .5, .75, 1, 1.5], rng.randint(2, 4)))
        return rp.PiecewiseAbelianStream.construct([(rp.RealInterval(a, b), rp.Lie(inc(), ctx=cx)) for a, b in zip(cuts, cuts[1:])], ctx=cx, resolution=3)
    if kind == "function":
        m = [[Fraction(rng.randint(-4, 4), 2) for _ in range(3)] for _ in range(w)]
        return rp.FunctionStream.from_function(lambda t, ctx: rp.Lie([float(a + b * Fraction(t) + e * Fraction(t) ** 2) for a, b, e in m], ctx=ctx), ctx=cx, resolution=3)
    if kind == "brownian":
        return rp.BrownianStream.with_generator(width=w, depth=d, dtype=rpx.KINDS[k], support=rp.RealInterval(0, 2))
    if kind == "tick":
        return rp.TickStream.from_data([(.1, "a", "increment", 1.5), (.4, "b", "increment", -.5), (.7, "a", "increment", 2.0)], width=2, depth=d, dtype=rpx.KINDS[k], resolution=3)
    return stream_of(rng, rng.choice(["inc", "pieces", "function"]), w, d, k, cx).restrict(rp.RealInterval(0, rng.choice([.5, .7, 1.0])))


def kinds(c):
    """Every kind of stream, asked in another context: the answer lives in it and is the same element up to the common depth."""
    rng = c.rng
    kind = rng.choice(["inc", "pieces", "function", "brownian", "tick", "restricted"])
    k = rng.choice("DDS" if kind == "brownian" else "RDDS")
    w = 2 if kind == "tick" else rng.choice([1, 2, 3])
    d = rng.randint(1, 4 if w < 3 else 3)
    cx = rpx.ctx(w, d, k)
    s = stream_of(rng, kind, w, d, k, cx)
    c.describe("kinds %s w=%d %s%d" % (kind, w, k, d), nontrivial=True)
    for _ in range(6):
        dst, dd = rng.choice("RDS"), rng.randint(1, 4 if w < 3 else 3)
        cell = rng.random() < .5
        if cell:                                       # one dyadic interval
            n = rng.choice([0, 1, 2, 3])
            a = rng.randrange(2 ** n)
            iv, text = rp.RealInterval(a / 2 ** n, (a + 1) / 2 ** n), "[%d,%d)/2^%d" % (a, a + 1, n)
            if rng.random() < .4:
                iv = rp.DyadicInterval(rp.Dyadic(a, n))
        else:
            a, b = sorted(rng.sample(range(9), 2))
            iv, text = rp.RealInterval(a / 8, b / 8), "[%d,%d)/8" % (a, b)
        how = rng.choice(["ctx", "depth", "dtype", "both"])
        kw, nk, nd = {"ctx": (dict(ctx=rpx.ctx(w, dd, dst)), dst, dd), "depth": (dict(depth=dd), k, dd),
                      "dtype": (dict(dtype=rpx.KINDS[dst]), dst, d), "both": (dict(depth=dd, dtype=rpx.KINDS[dst]), dst, dd)}[how]
        text = "%s over %s of %s" % (kw, text, c.desc)
        res = dict(resolution=rng.choice([3, 4]))
        first = rng.random() < .5                      # asked before or after the stream's own context
        own = None if first else s.log_signature(iv, **res)
        L = c.call("kinds.log_signature", s.log_signature, iv, **res, **kw)
        own = s.log_signature(iv, **res) if first else own
        e = min(d, nd)
        cy = rpx.ctx(w, nd, nk)
        c.check(L.context == cy, "kinds.log_signature.context", lambda: "%s for %s" % (L.context, text))
        c.check(own.context == cx, "kinds.own.context", lambda: "%s for %s" % (own.context, text))
        g, want = ref.trunc(ref.l2t(rpx.read_lie(L, nk)), e), ref.trunc(ref.l2t(rpx.read_lie(own, k)), e)
        sc = (2 + ref.l1({q: v for q, v in want.items() if len(q) == 1})) ** (e + 2)
        c.check(agree(g, want, k, nk, sc, 512), "kinds.log_signature.value", lambda: rpx.diff(g, want) + " in " + text)
        S = c.call("kinds.signature", s.signature, iv, **res, **kw)
        c.check(S.context == cy, "kinds.signature.context", lambda: "%s for %s" % (S.context, text))
        g2, w2 = ref.trunc(rpx.read_ft(S, nk), e), ref.trunc(rpx.read_ft(s.signature(iv, **res), k), e)
        c.check(agree(g2, w2, k, nk, sc, 512), "kinds.signature.value", lambda: rpx.diff(g2, w2) + " in " + text)


def families(tier):
    m = 1 if tier == "quick" else 12
    return [("contexts", contexts, 60 * m), ("convert", convert, 400 * m), ("logsig", logsig, 120 * m), ("mixing", mixing, 250 * m),
            ("widths", widths, 80 * m), ("queries", queries, 60 * m), ("kinds", kinds, 240 * m)]
