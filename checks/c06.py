"""C06 Lie <-> tensor maps, CBH, compute_signature."""
from fractions import Fraction
import roughpy as rp
import ref, rpx

RULE = ("seeded Lie elements of every shape, coefficient type, storage kind and of depths below, at and above the context's: embedding, "
        "inverse, CBH of sequences of length 0..5 and compute_signature of increment tables against word expansions computed exactly; "
        "plus a sweep of every Hall element of the listed shapes; non-trivial: some element has a nonzero coefficient")
ASSUMPTIONS = ["Lie results are compared through their word expansion (injective on Hall coefficients)",
               "floating point results are compared within a forward error bound, exact types exactly"]
MIN_CASES = 80
SCALE = 4
FIXED = ("sweep",)
SHAPES = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (2, 6), (3, 2), (3, 3), (4, 3), (5, 2), (6, 3), (9, 2), (16, 1)]
SHAPES_P = [(1, 2), (2, 2), (2, 3), (3, 2)]


def setup(c):
    rng = c.rng
    kind = rng.choice("RRRDDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    return kind, w, d, rpx.ctx(w, d, kind)


def sty(kind):
    return {"R": "q", "P": None, "D": "d", "S": "i"}[kind]


def bnd(kind, *ts, depth):
    if kind in rpx.EXACT:
        return 1.0
    return min(1e30, 64 * (1 + sum(ref.l1(t) for t in ts)) ** (depth + 1))


def same_t(c, key, T, want, kind, scale):
    g = rpx.read_ft(T, kind)
    return c.check(rpx.same(g, want, kind, scale), key, lambda: rpx.diff(g, want) + " in " + c.desc)


def same_l(c, key, L, want, kind, scale):
    """want is a tensor: the expansion of the Lie element."""
    g = ref.l2t(rpx.read_lie(L, kind))
    return c.check(rpx.same(g, want, kind, scale), key, lambda: rpx.diff(g, want) + " in " + c.desc)


def other_depth(rng, w, d, kind):
    """A context of the same width and type whose depth may differ."""
    lim = 7 if w <= 2 else 4 if w <= 4 else 3 if w <= 6 else 2
    dd = rng.choice([d, d, max(1, d - 1), 1, min(lim, d + 1), lim])
    return max(1, dd)


def relt(rng, w, d, kind, mixed, fill=None):
    """(reference words, Lie object, description)"""
    dd = other_depth(rng, w, d, kind) if mixed else d
    if kind == "P":
        dd = min(dd, 3)
    l = rpx.rlie(rng, w, dd, kind, sty(kind), fill=fill)
    vt = rng.choice("sd")
    return ref.trunc(ref.l2t(l), d), rpx.lie(rpx.ctx(w, dd, kind), kind, l, vt), "%s@%d%s" % (rpx.show(l), dd, vt), l


def embed(c):
    kind, w, d, cx = setup(c)
    rng = c.rng
    mixed = rng.random() < 0.4
    t, L, text, l = relt(rng, w, d, kind, mixed)
    c.describe("embed w=%d d=%d %s %s" % (w, d, kind, text), nontrivial=bool(t))
    b = bnd(kind, t, depth=1)
    T = c.call("lie_to_tensor", cx.lie_to_tensor, L)
    same_t(c, "lie_to_tensor.value", T, t, kind, b)
    c.check(T.width == w and T.max_degree == d, "lie_to_tensor.context", lambda: "w=%s d=%s" % (T.width, T.max_degree))
    B = c.call("tensor_to_lie", cx.tensor_to_lie, T)
    same_l(c, "tensor_to_lie.inverse", B, t, kind, b)
    c.check(B.width == w and B.max_degree == d, "tensor_to_lie.context", lambda: "w=%s d=%s" % (B.width, B.max_degree))
    g = rpx.read_lie(L, kind)
    c.check(rpx.same(g, l, kind, 1), "lie_to_tensor.operand", lambda: rpx.diff(g, l))
    # linearity
    t2, L2, text2, _ = relt(rng, w, d, kind, False)
    S = c.call("sum", cx.lie_to_tensor, rpx.lie(cx, kind, {h: v for h, v in l.items() if ref.hall_degree(h) <= d}, rng.choice("sd")) + L2)
    same_t(c, "lie_to_tensor.linear", S, ref.add(t, t2), kind, b + bnd(kind, t2, depth=1))
    # a tensor given sparse, dense or at another depth converts back alike
    dd = other_depth(rng, w, d, kind)
    T3 = rpx.tensor(rpx.ctx(w, dd, kind), kind, ref.trunc(t, dd), rng.choice("sd"))
    B3 = c.call("tensor_to_lie", cx.tensor_to_lie, T3)
    same_l(c, "tensor_to_lie.depth", B3, ref.trunc(t, min(d, dd)), kind, b)


def sweep(c):
    """Every Hall element of a shape."""
    shapes = SHAPES + [(2, 7), (3, 4), (4, 4), (12, 2)]
    w, d = shapes[c.idx % len(shapes)]
    cx = rpx.ctx(w, d, "R")
    c.describe("sweep w=%d d=%d" % (w, d))
    for i, h in enumerate(rpx.hall_list(w, d)):
        for vt in "sd":
            L = rpx.lie(cx, "R", {h: Fraction(1)}, vt)
            T = cx.lie_to_tensor(L)
            if not same_t(c, "lie_to_tensor.basis", T, ref.hall_expand(h), "R", 1):
                return
            B = cx.tensor_to_lie(T)
            if not same_l(c, "tensor_to_lie.basis", B, ref.hall_expand(h), "R", 1):
                return


def cbh(c):
    kind, w, d, cx = setup(c)
    rng = c.rng
    n = rng.choice([0, 1, 2, 2, 3, 3, 5]) if kind != "P" else rng.choice([0, 1, 2])
    mixed = rng.random() < 0.5
    els = []
    for _ in range(n):
        if els and rng.random() < 0.15:
            els.append(rng.choice(els))
        else:
            els.append(relt(rng, w, d, kind, mixed, fill=rng.choice([0, 1, 2, 3])))
    c.describe("cbh w=%d d=%d %s n=%d %s" % (w, d, kind, n, " | ".join(e[2] for e in els)), nontrivial=any(e[0] for e in els))
    ts = [e[0] for e in els]
    want = ref.cbh(ts, d)
    b = bnd(kind, *ts, depth=d)
    if kind not in rpx.EXACT and b > 1e10:
        return
    seq = [e[1] for e in els]
    seq = tuple(seq) if rng.random() < 0.3 else seq
    how = rng.choice([None, "s", "d"])
    args = dict() if how is None else dict(vec_type=rpx.VT[how])
    R = c.call("cbh", lambda: cx.cbh(seq, **args))
    same_l(c, "cbh.value", R, want, kind, b * b)
    c.check(R.width == w and R.max_degree == d, "cbh.context", lambda: "w=%s d=%s" % (R.width, R.max_degree))
    for e in els:
        g = rpx.read_lie(e[1], kind)
        c.check(rpx.same(g, e[3], kind, 1), "cbh.operand", lambda: rpx.diff(g, e[3]))
    # the exponential of the result is the product of the exponentials
    E = c.call("exp", lambda: cx.lie_to_tensor(R).exp())
    p = {(): ref.Poly.const(1) if kind == "P" else Fraction(1)}
    for t in ts:
        p = ref.mul(p, ref.exp(t, d), d)
    same_t(c, "cbh.exp", E, p, kind, b * b)


def signature(c):
    """compute_signature of increment tables in several spellings."""
    kind, w, d, cx = setup(c)
    rng = c.rng
    n = rng.choice([1, 1, 2, 3, 4]) if kind != "P" else rng.choice([1, 2])
    spell = rng.choice(["list", "tuple", "dict", "lie", "pairs"] + (["array", "array"] if kind in "DS" else []))
    rows, data = [], []
    for _ in range(n):
        if spell == "lie":
            t, L, _, _ = relt(rng, w, d, kind, False, fill=rng.choice([1, 2, 3]))
            rows.append(t)
            data.append(L)
            continue
        if spell in ("dict", "pairs"):
            ks = rng.sample(range(1, w + 1), rng.randint(1, min(w, 3)))
            vals = {k: rpx.rcoef(rng, kind, sty(kind)) for k in ks}
        else:
            vals = {k: rpx.rcoef(rng, kind, sty(kind)) if rng.random() < 0.8 else (ref.Poly() if kind == "P" else Fraction(0)) for k in range(1, w + 1)}
        rows.append({(k,): v for k, v in vals.items() if v})
        conv = {k: rpx.scalar(kind, v) if kind in "RP" else float(v) for k, v in vals.items()}
        if spell == "dict":
            data.append(conv)
        elif spell == "pairs":
            data.append([(k, v) for k, v in conv.items()])
        else:
            data.append([conv[k] for k in range(1, w + 1)])
    if spell == "tuple" and w != 2:
        data = tuple(data)
    elif spell == "array":
        import numpy as np
        data = np.array(data, dtype=rng.choice(["float64", "float32"]))
    c.describe("compute_signature w=%d d=%d %s %s %s" % (w, d, kind, spell, [rpx.show(r) for r in rows]))
    b = bnd(kind, *rows, depth=d)
    if kind not in rpx.EXACT and b > 1e10:
        return
    how = rng.choice([None, "s", "d"])
    args = dict() if how is None else dict(vtype=rpx.VT[how])
    S = c.call("compute_signature", lambda: cx.compute_signature(data, **args))
    p = {(): ref.Poly.const(1) if kind == "P" else Fraction(1)}
    for t in rows:
        p = ref.mul(p, ref.exp(t, d), d)
    same_t(c, "compute_signature.value", S, p, kind, b)
    L = c.call("to_logsignature", cx.to_logsignature, S)
    same_l(c, "to_logsignature.value", L, ref.log(p, d), kind, b * b)


def misuse(c):
    """Elements of another width are rejected, never mixed."""
    rng = c.rng
    kind = rng.choice("RD")
    w, d = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2)])
    w2 = rng.choice([x for x in (1, 2, 3, 4, 5) if x != w])
    cx, cy = rpx.ctx(w, d, kind), rpx.ctx(w2, rng.choice([1, 2, 3]), kind)
    L = rpx.lie(cy, kind, {rpx.hall_list(w2, 1)[0]: Fraction(1)}, rng.choice("sd"))
    T = rpx.tensor(cy, kind, {(1,): Fraction(1)}, rng.choice("sd"))
    M = rpx.lie(cx, kind, {1: Fraction(1)}, "d") if False else cx.zero_lie()
    c.describe("width %d given to context of width %d" % (w2, w))
    for name, f in [("lie_to_tensor", lambda: cx.lie_to_tensor(L)), ("tensor_to_lie", lambda: cx.tensor_to_lie(T)),
                    ("cbh", lambda: cx.cbh([M, L])), ("cbh1", lambda: cx.cbh([L]))]:
        try:
            r = f()
        except Exception:
            continue
        c.fail("width.mixed." + name, "%s accepted an element of width %d and gave %s" % (name, w2, r))


def families(tier):
    k = 1 if tier == "quick" else 10
    return [("embed", embed, 220 * k), ("sweep", sweep, 18), ("cbh", cbh, 220 * k), ("signature", signature, 160 * k), ("misuse", misuse, 24 * k)]
