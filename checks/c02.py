"""C02 exp, log, fmexp, antipode."""
from fractions import Fraction
import math
import roughpy as rp
import ref, rpx

RULE = ("exp/log/fmexp/antipode of seeded tensors (every width/depth/coefficient type in the shape list, dense and sparse, "
        "operands that alias or are shared) against truncated power series computed exactly; non-trivial: the operand has "
        "at least one word of positive length")
ASSUMPTIONS = ["floating point results are compared within a forward error bound, exact types exactly",
               "exp and the exponent of fmexp are given operands without constant term, log operands with constant term 1"]
MIN_CASES = 60
SCALE = 8
SHAPES = [(1, 1), (1, 6), (2, 1), (2, 2), (2, 3), (2, 5), (2, 7), (2, 8), (3, 2), (3, 4), (4, 3), (5, 3), (7, 2), (20, 1)]
SHAPES_P = [(1, 3), (2, 1), (2, 2), (2, 3), (3, 2)]


def setup(c):
    rng = c.rng
    kind = rng.choice("RRDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    return kind, w, d, rpx.ctx(w, d, kind)


def bound(kind, *ts, depth):
    """Magnitude of the power series in the given tensors."""
    if kind in rpx.EXACT:
        return 1.0
    n = sum(ref.l1({w: c for w, c in t.items()}) for t in ts)
    return min(1e30, 64 * (1 + n) ** (depth + 1))


def style(kind):
    return {"R": "q", "P": None, "D": "d", "S": "d"}[kind]


def series(c):
    """exp, log, their inverses, antipode; operands unchanged."""
    kind, w, d, cx = setup(c)
    rng = c.rng
    fill = rng.choice([1, 2, 3, 5, 12]) if kind != "P" else rng.choice([1, 2, 3])
    x = rpx.rtensor(rng, w, d, kind, style(kind), fill=fill, const=0)
    vt = rng.choice("sd")
    X = rpx.tensor(cx, kind, x, vt)
    c.describe("w=%d d=%d %s %s x=%s" % (w, d, kind, vt, rpx.show(x)), nontrivial=any(x))
    b = bound(kind, x, depth=d)
    E = c.call("exp", X.exp)
    e = ref.exp(x, d)
    same(c, "exp.value", E, e, kind, b)
    same(c, "exp.operand", X, x, kind, 1)
    L = c.call("log.exp", E.log)
    if kind in rpx.EXACT:
        same(c, "log.of.exp", L, x, kind, b)
        same(c, "log.operand", E, e, kind, b)
    elif b < 1e12:
        same(c, "log.of.exp", L, x, kind, b * bound(kind, e, depth=d))
    y = dict(x)
    y[()] = Fraction(1) if kind != "P" else ref.Poly.const(1)
    Y = rpx.tensor(cx, kind, y, rng.choice("sd"))
    L = c.call("log", Y.log)
    l = ref.log(y, d)
    same(c, "log.value", L, l, kind, b)
    E2 = c.call("exp.log", L.exp)
    same(c, "exp.of.log", E2, y, kind, b * bound(kind, l, depth=d) if kind not in rpx.EXACT else 1)
    z = rpx.rtensor(rng, w, d, kind, style(kind))
    Z = rpx.tensor(cx, kind, z, rng.choice("sd"))
    A = c.call("antipode", Z.antipode)
    same(c, "antipode.value", A, ref.antipode(z), kind, 1)
    same(c, "antipode.operand", Z, z, kind, 1)


def grouplike(c):
    """Antipode inverts group-like elements on both sides."""
    kind, w, d, cx = setup(c)
    rng = c.rng
    hl = rpx.rlie(rng, w, d, kind, style(kind), fill=rng.choice([1, 2, 3]) if kind != "P" else 1)
    t = ref.l2t(hl)
    T = rpx.tensor(cx, kind, t, rng.choice("sd"))
    G = c.call("exp", T.exp)
    c.describe("w=%d d=%d %s exp of Lie %s" % (w, d, kind, rpx.show(hl)), nontrivial=bool(t))
    b = bound(kind, t, depth=d) ** 2
    I = c.call("antipode", G.antipode)
    if kind in rpx.EXACT or b < 1e15:
        unit = {(): ref.Poly.const(1)} if kind == "P" else {(): Fraction(1)}
        same(c, "antipode.left", c.call("mul", lambda: I * G), unit, kind, b)
        same(c, "antipode.right", c.call("mul", lambda: G * I), unit, kind, b)
        L = c.call("log", I.log)
        same(c, "antipode.log", L, ref.neg(t), kind, b * b)


FULL = [(1, 1), (1, 9), (2, 1), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (2, 10), (3, 3), (3, 5), (3, 6), (4, 4), (4, 5),
        (5, 4), (6, 3), (7, 3), (9, 2), (40, 1)]


def antipode_full(c):
    """Antipode of tensors in which every word up to some degree has its own coefficient."""
    rng = c.rng
    w, d = FULL[c.idx % len(FULL)]
    kind = rng.choice("RDS")
    cx = rpx.ctx(w, d, kind)
    top = d if rng.random() < 0.6 else rng.randint(0, d)
    ws = [x for x in ref.words(w, d) if len(x) <= top]
    vals = list(range(1, len(ws) + 1))
    rng.shuffle(vals)
    z = {x: Fraction(v) for x, v in zip(ws, vals)}
    vt = rng.choice("sdd")
    Z = rp.FreeTensor([float(v) if kind != "R" else v for v in vals], ctx=cx, vector_type=rpx.VT[vt])
    c.describe("antipode of a full tensor w=%d d=%d %s %s up to degree %d" % (w, d, kind, vt, top), nontrivial=top > 1)
    A = c.call("antipode", Z.antipode)
    same(c, "antipode.full", A, ref.antipode(z), kind, 1)
    same(c, "antipode.twice", c.call("antipode", A.antipode), z, kind, 1)
    same(c, "antipode.operand", Z, z, kind, 1)


def fmexp(c):
    """Chains of x.fmexp(y), with shared and aliased operands."""
    kind, w, d, cx = setup(c)
    rng = c.rng
    st = style(kind)
    n = 1 if kind == "P" else rng.choice([1, 2, 3])
    x = rpx.rtensor(rng, w, d, kind, st, const=rng.choice([None, 0, 1, 2, -3]))
    vx = rng.choice("sd")
    X = rpx.tensor(cx, kind, x, vx)
    ys = []
    b = bound(kind, x, depth=0)
    c.describe("w=%d d=%d %s x(%s)=%s" % (w, d, kind, vx, rpx.show(x)))
    pool = []
    for i in range(n):
        if pool and rng.random() < 0.3:
            y, Y = rng.choice(pool)
        else:
            y = rpx.rtensor(rng, w, d, kind, st, const=0, fill=rng.choice([1, 2, 4]),
                            maxdeg=rng.choice([1, d, d]))
            Y = rpx.tensor(cx, kind, y, rng.choice("sd"))
            pool.append((y, Y))
        c.describe("fmexp %s" % rpx.show(y), nontrivial=bool(y))
        X = c.call("fmexp", X.fmexp, Y)
        x = ref.mul(x, ref.exp(y, d), d)
        b *= bound(kind, y, depth=d)
        same(c, "fmexp.value", X, x, kind, b)
        same(c, "fmexp.exponent-changed", Y, y, kind, 1)
    # alias: x.fmexp(x), x without constant term
    y = rpx.rtensor(rng, w, d, kind, st, const=0, fill=2)
    Y = rpx.tensor(cx, kind, y, rng.choice("sd"))
    R = c.call("fmexp.alias", Y.fmexp, Y)
    same(c, "fmexp.alias.value", R, ref.mul(y, ref.exp(y, d), d), kind, bound(kind, y, depth=d + 1))


def big_log(c):
    """tensor_functions.Log agrees with log on group-like elements."""
    from roughpy import tensor_functions as tf
    rng = c.rng
    w, d = rng.choice([(1, 1), (3, 1), (2, 2), (3, 2), (4, 2), (2, 3)])
    cx = rpx.ctx(w, d, "R")
    hl = rpx.rlie(rng, w, d, "R", "q", fill=rng.choice([1, 2, 4]))
    G = rpx.tensor(cx, "R", ref.l2t(hl), rng.choice("sd")).exp()
    c.describe("Log w=%d d=%d exp of %s" % (w, d, rpx.show(hl)))
    key = "Log.deep" if d >= 3 else "Log.value"
    got = rpx.read_ft(c.call("Log", tf.Log, G), "R")
    c.check(got == ref.l2t(hl), key, lambda: rpx.diff(got, ref.l2t(hl)))


def same(c, key, got, want, kind, scale):
    try:
        g = rpx.read_ft(got, kind)
    except rpx.ReadError as e:
        c.fail(key + ".read", str(e))
        return
    c.check(rpx.same(g, want, kind, scale), key, lambda: "got %s want %s [%s] case %s" % (
        rpx.show(g), rpx.show(want), rpx.diff(g, want), c.desc))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("series", series, 240 * k), ("grouplike", grouplike, 160 * k), ("antipode_full", antipode_full, 60 * k), ("fmexp", fmexp, 200 * k), ("Log", big_log, 24 * k)]
