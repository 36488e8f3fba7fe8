"""C01 free tensor arithmetic."""
import roughpy as rp
import ref, rpx
from prog import Program, Algebra

RULE = ("random straight-line programs of tensor operations (operators, in-place and fused forms, operands possibly "
        "aliased, dense and sparse mixed) over seeded width/depth/coefficient type; after every statement every live "
        "tensor is compared coefficient by coefficient with an exact model; non-trivial: at least one product or fused "
        "statement ran on operands with several words")
ASSUMPTIONS = ["floating point coefficients are compared within a forward error bound, exact types exactly"]
MIN_CASES = 60
SCALE = 2

OPS = ["add", "sub", "neg", "smul", "rsmul", "sdiv", "mul", "mul", "iadd", "isub", "ismul", "isdiv", "imul",
       "add_scal_mul", "sub_scal_mul", "add_scal_div", "sub_scal_div", "add_mul", "sub_mul", "mul_smul", "mul_sdiv"]
SHAPES = [(1, 1), (1, 6), (2, 1), (2, 2), (2, 3), (2, 5), (2, 7), (3, 2), (3, 4), (4, 3), (5, 3), (7, 2), (12, 2), (40, 1)]
SHAPES_P = [(1, 4), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (5, 2)]


def prog(c):
    rng = c.rng
    kind = rng.choice("RRDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    alg = Algebra("F", w, d, kind)
    vts = rng.choice(["s", "d", "sd", "sd"])
    style = rng.choice([None, "q", "i"]) if kind == "R" else None
    p = Program(c, alg, style, vts, 4)
    steps = (14 if c.tier == "quick" else 30)
    c.describe("width %d depth %d %s storage %s: " % (w, d, kind, vts))
    p.run(steps, OPS)
    c.describe("; ".join(p.log), nontrivial=any("*" in x for x in p.log))


def dense_mul(c):
    """Single products of full operands at sizes that reach the blocked multiplication."""
    rng = c.rng
    kind = rng.choice("RDS")
    w, d = rng.choice([(2, 6), (2, 8), (3, 5), (4, 4), (5, 4), (6, 3), (8, 3), (16, 2)])
    cx = rpx.ctx(w, d, kind)

    def full(maxdeg):
        return {x: (rpx.rcoef(rng, kind, "i")) for x in ref.words(w, maxdeg) if rng.random() < dens}
    dens = rng.choice([0.3, 1.0])
    da, db = (rng.choice([d, d, d - 1, 1, 0]) for _ in range(2))
    a, b = full(da), full(db)
    va, vb = rng.choice("sd"), rng.choice("sd")
    A, B = build_int(cx, a, va), build_int(cx, b, vb)
    c.describe("full product w=%d d=%d %s degrees %d,%d density %.1f storage %s%s" % (w, d, kind, da, db, dens, va, vb))
    want = ref.mul(a, b, d)
    form = rng.choice(["mul", "imul", "add_mul", "free_multiply"])
    if form == "mul":
        got = c.call("ft.mul", lambda: A * B)
    elif form == "imul":
        got = A
        got *= B
        c.check(got is A, "ft.imul.identity")
    elif form == "free_multiply":
        got = c.call("ft.free_multiply", rp.free_multiply, A, B)
    else:
        x = full(1)
        got = build_int(cx, x, rng.choice("sd"))
        c.call("ft.add_mul", got.add_mul, A, B)
        want = ref.add(x, want)
    g = rpx.read_ft(got, kind)
    # all integers stay far below the significand: exact in every type
    c.check(g == want, "ft.%s.full" % form, lambda: rpx.diff(g, want))
    if form != "imul":
        c.check(rpx.read_ft(A, kind) == a, "ft.%s.left-changed" % form)
    c.check(rpx.read_ft(B, kind) == b, "ft.%s.right-changed" % form)


def build_int(cx, d, vt):
    data = {rp.TensorKey(*k, width=cx.width, depth=cx.depth): int(v) for k, v in d.items()}
    if not data:
        data = {rp.TensorKey(width=cx.width, depth=cx.depth): 0}
    return rp.FreeTensor(data, ctx=cx, vector_type=rpx.VT[vt])


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("prog", prog, 480 * k), ("dense", dense_mul, 64 * k)]
