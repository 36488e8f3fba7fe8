"""C04 Lie algebra: vector space laws, bracket, fused forms."""
import roughpy as rp
import ref, rpx
from prog import Program, Algebra

RULE = ("random programs over Lie elements checked after every statement on all live objects against the exact commutator "
        "model (images in the tensor algebra); brackets of random Hall elements in random cache orders; Jacobi and "
        "antisymmetry on RoughPy values; non-trivial: at least one bracket of elements whose degrees sum within the depth")
ASSUMPTIONS = ["Hall elements are identified by the bracket the library prints and expanded as nested commutators",
               "floating point within a forward error bound, exact types exactly"]
MIN_CASES = 60
SCALE = 6
OPS = ["add", "sub", "neg", "smul", "rsmul", "sdiv", "mul", "mul", "mul", "iadd", "isub", "ismul", "isdiv", "imul",
       "add_scal_mul", "sub_scal_mul", "add_scal_div", "sub_scal_div", "add_mul", "sub_mul", "mul_smul", "mul_sdiv"]
SHAPES = [(1, 1), (1, 4), (2, 1), (2, 2), (2, 3), (2, 5), (2, 6), (3, 2), (3, 4), (4, 3), (5, 3), (7, 2), (12, 2)]
SHAPES_P = [(1, 3), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)]


def prog(c):
    rng = c.rng
    kind = rng.choice("RRDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    alg = Algebra("L", w, d, kind)
    vts = rng.choice(["s", "d", "sd"])
    p = Program(c, alg, "q" if kind == "R" else None, vts, 3)
    c.describe("width %d depth %d %s storage %s: " % (w, d, kind, vts))
    p.run(8 if c.tier == "quick" else 20, OPS)
    c.describe("; ".join(p.log), nontrivial=any("*" in x for x in p.log))


def brackets(c):
    """Products of basis elements in a random order (the bracket cache fills in a different order every time)."""
    rng = c.rng
    kind = rng.choice("RRD")
    w, d = rng.choice([(2, 5), (2, 7), (3, 4), (3, 5), (4, 4), (5, 3), (6, 3), (10, 2)])
    # a bigger or smaller depth sharing the same width may have filled shared tables
    if rng.random() < 0.5:
        w2, d2 = w, max(1, d + rng.choice([-1, 1]) if d < 6 else d - 1)
        hl2 = rpx.hall_list(w2, d2)
        cx2 = rpx.ctx(w2, d2, kind)
        for _ in range(5):
            x, y = rng.choice(hl2), rng.choice(hl2)
            c.call("bracket", lambda: rpx.lie(cx2, kind, {x: 1}) * rpx.lie(cx2, kind, {y: 1}))
    cx = rpx.ctx(w, d, kind)
    hl = rpx.hall_list(w, d)
    c.describe("width %d depth %d %s" % (w, d, kind))
    for _ in range(40):
        x = rng.choice(hl)
        rest = [h for h in hl if ref.hall_degree(h) + ref.hall_degree(x) <= d] or hl
        y = rng.choice(rest if rng.random() < 0.95 else hl)
        va, vb = rng.choice("sd"), rng.choice("sd")
        X, Y = rpx.lie(cx, kind, {x: 1}, va), rpx.lie(cx, kind, {y: 1}, vb)
        c.describe("[%s,%s]" % (ref.hall_str(x), ref.hall_str(y)), nontrivial=ref.hall_degree(x) + ref.hall_degree(y) <= d)
        got = rpx.read_lie(c.call("bracket", lambda: X * Y), kind)
        want = ref.bracket(ref.hall_expand(x), ref.hall_expand(y), d)
        c.check(ref.l2t(got) == want, "bracket.value", lambda: "[%s,%s] gives %s" % (ref.hall_str(x), ref.hall_str(y), rpx.show(got)))


def laws(c):
    """Identities between RoughPy values themselves."""
    rng = c.rng
    kind = rng.choice("RRP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    cx = rpx.ctx(w, d, kind)
    E = [rpx.lie(cx, kind, rpx.rlie(rng, w, d, kind, "q" if kind == "R" else None, fill=rng.choice([1, 2, 4])), rng.choice("sd")) for _ in range(3)]
    x, y, z = E
    rd = lambda e: rpx.read_lie(e, kind)  # noqa: E731
    R = [rd(e) for e in E]
    c.describe("w=%d d=%d %s %s" % (w, d, kind, [rpx.show(r) for r in R]))
    c.check(rd(x * x) == {}, "laws.alternating", lambda: rpx.show(rd(x * x)))
    c.check(ref.add(rd(x * y), rd(y * x)) == {}, "laws.antisymmetric", lambda: rpx.show(rd(x * y)))
    j = (x * y) * z + (y * z) * x + (z * x) * y
    c.check(rd(j) == {}, "laws.jacobi", lambda: rpx.show(rd(j)))
    s = rpx.scalar(kind, rpx.rcoef(rng, kind, "q" if kind == "R" else None))
    lhs, rhs = (x + y * s) * z, x * z + (y * z) * s
    c.check(rd(lhs) == rd(rhs), "laws.bilinear", lambda: rpx.diff(rd(lhs), rd(rhs)))
    # embedding is a Lie homomorphism, computed by the library
    tx, ty, txy = (cx.lie_to_tensor(e) for e in (x, y, x * y))
    com = tx * ty - ty * tx
    c.check(rpx.read_ft(com, kind) == rpx.read_ft(txy, kind), "laws.embedding",
            lambda: rpx.diff(rpx.read_ft(com, kind), rpx.read_ft(txy, kind)))
    for e, r in zip(E, R):
        c.check(rd(e) == r, "laws.operand-changed", lambda: rpx.diff(rd(e), r))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("prog", prog, 240 * k), ("brackets", brackets, 40 * k), ("laws", laws, 80 * k)]
