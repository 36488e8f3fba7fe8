"""C03 shuffle, half-shuffle, adjoint."""
from fractions import Fraction
import roughpy as rp
import ref, rpx
from prog import Program, Algebra

RULE = ("random programs over shuffle tensors checked against an exact interleaving model after every statement; free "
        "functions (shuffle, half-shuffle, free, adjoint multiply) on every mixture of tensor class and storage; the "
        "adjoint also checked as a pairing identity word by word; non-trivial: products of operands with positive-degree words")
ASSUMPTIONS = ["floating point within a forward error bound, exact types exactly",
               "half-shuffle operands without constant term are compared with the definition; with constant terms only the sum identity is required"]
MIN_CASES = 60
SCALE = 8
OPS = ["add", "sub", "neg", "smul", "sdiv", "mul", "mul", "mul", "iadd", "isub", "ismul", "imul",
       "add_scal_mul", "sub_scal_mul", "add_mul", "sub_mul", "mul_smul", "mul_sdiv"]
SHAPES = [(1, 1), (1, 6), (2, 1), (2, 2), (2, 3), (2, 5), (3, 2), (3, 4), (4, 3), (5, 3), (7, 2), (20, 1)]
SHAPES_P = [(1, 4), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def prog(c):
    rng = c.rng
    kind = rng.choice("RRDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    alg = Algebra("S", w, d, kind)
    vts = rng.choice(["s", "d", "sd"])
    p = Program(c, alg, rng.choice([None, "q"]) if kind == "R" else None, vts, 3)
    c.describe("width %d depth %d %s storage %s: " % (w, d, kind, vts))
    p.run(8 if c.tier == "quick" else 20, OPS)
    c.describe("; ".join(p.log), nontrivial=any("*" in x for x in p.log))


CLS = [rp.FreeTensor, rp.ShuffleTensor]


def funcs(c):
    rng = c.rng
    kind = rng.choice("RRDSP")
    w, d = rng.choice(SHAPES_P if kind == "P" else SHAPES)
    cx = rpx.ctx(w, d, kind)
    st = {"R": "q", "P": None, "D": "d", "S": "i"}[kind]
    nf = [1, 2, 4, 8] if kind != "P" else [1, 2, 3]
    c.describe("width %d depth %d %s:" % (w, d, kind))
    for _ in range(4):
        a = rpx.rtensor(rng, w, d, kind, st, fill=rng.choice(nf), maxdeg=rng.choice([d, d, 1]))
        b = rpx.rtensor(rng, w, d, kind, st, fill=rng.choice(nf))
        ca, cb, va, vb = rng.choice(CLS), rng.choice(CLS), rng.choice("sd"), rng.choice("sd")
        A, B = rpx.tensor(cx, kind, a, va, ca), rpx.tensor(cx, kind, b, vb, cb)
        if rng.random() < 0.1:
            B, b, cb, vb = A, a, ca, va
        what = "%s(%s)%s x %s(%s)%s" % (ca.__name__, va, rpx.show(a, 4), cb.__name__, vb, rpx.show(b, 4))
        c.describe(what, nontrivial=any(a) and any(b))
        sc = 64 * max(1.0, (ref.l1(a) * ref.l1(b)) if kind != "P" else 1) * 40

        def chk(key, got, want, cls):
            g = rpx.read_ft(got, kind)
            c.check(isinstance(got, cls), key + ".class", lambda: "%s gives %s" % (what, type(got)))
            c.check(rpx.same(g, want, kind, sc), key + ".value", lambda: "%s: %s" % (what, rpx.diff(g, want)))

        chk("shuffle_multiply", c.call("shuffle_multiply", rp.shuffle_multiply, A, B), ref.shuffle(a, b, d), ca)
        chk("free_multiply", c.call("free_multiply", rp.free_multiply, A, B), ref.mul(a, b, d), ca)
        # adjoint: <adj_a(b), w> = <b, a*w>
        adj = c.call("adjoint", rp.adjoint_to_free_multiply, A, B)
        want = ref.adjoint(a, b)
        g = rpx.read_ft(adj, kind)
        c.check(rpx.same(g, want, kind, sc), "adjoint.value." + va + vb, lambda: "%s: %s" % (what, rpx.diff(g, want)))
        # the adjoint is a tensor like any other: it can be multiplied and added afterwards
        if kind in rpx.EXACT:
            try:
                R = adj * adj
                wantr = (ref.mul if isinstance(adj, rp.FreeTensor) else ref.shuffle)(want, want, d)
                gr = rpx.read_ft(R, kind)
                c.check(gr == wantr, "adjoint.reuse", lambda: "%s: %s" % (what, rpx.diff(gr, wantr)))
            except Exception as e:  # noqa: BLE001
                c.fail("adjoint.reuse.raises", "%s: %s" % (what, e))
        # half-shuffle
        a0 = {k: v for k, v in a.items() if k}
        b0 = {k: v for k, v in b.items() if k}
        A0, B0 = rpx.tensor(cx, kind, a0, va, ca), rpx.tensor(cx, kind, b0, vb, cb)
        chk("half_shuffle", c.call("half_shuffle", rp.half_shuffle_multiply, A0, B0), ref.half_shuffle(a0, b0, d), ca)
        h1 = rpx.read_ft(rp.half_shuffle_multiply(A, B), kind)
        h2 = rpx.read_ft(rp.half_shuffle_multiply(B, A), kind)
        s = ref.add(h1, h2)
        want = ref.shuffle(a, b, d)
        want.pop((), None)
        s.pop((), None)
        c.check(rpx.same(s, want, kind, 2 * sc), "half_shuffle.sum", lambda: "%s: %s" % (what, rpx.diff(s, want)))
        for nm, o, r in (("left", A, a), ("right", B, b)):
            g = rpx.read_ft(o, kind)
            c.check(g == r, "funcs.operand-changed." + nm, lambda: "%s: %s" % (what, rpx.diff(g, r)))


def pairing(c):
    """ShuffleTensor @ FreeTensor is the pairing of words, and shuffles evaluate multiplicatively on group-like elements."""
    rng = c.rng
    kind = "R"
    w, d = rng.choice([(2, 3), (3, 3), (2, 5)])
    cx = rpx.ctx(w, d, kind)
    h = rpx.rlie(rng, w, d, kind, "q", fill=3)
    x = rpx.tensor(cx, kind, ref.l2t(h), rng.choice("sd"))
    g = x.exp()
    gr = rpx.read_ft(g, kind)
    a = rpx.rtensor(rng, w, d, kind, "q", fill=3, maxdeg=d // 2)
    b = rpx.rtensor(rng, w, d, kind, "q", fill=3, maxdeg=d // 2)
    A, B = (rpx.tensor(cx, kind, t, rng.choice("sd"), rp.ShuffleTensor) for t in (a, b))
    c.describe("w=%d d=%d exp(%s) with %s, %s" % (w, d, rpx.show(h), rpx.show(a), rpx.show(b)))

    def pair(s):
        return sum((v * gr.get(k, 0) for k, v in rpx.read_ft(s, kind).items()), Fraction(0))
    P = A * B
    c.check(pair(P) == pair(A) * pair(B), "pairing.multiplicative", lambda: "%s != %s*%s" % (pair(P), pair(A), pair(B)))
    v = c.call("matmul", lambda: P @ g)
    got = rpx.value(v, kind)
    c.check(got == pair(P), "pairing.matmul", lambda: "got %s want %s" % (got, pair(P)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("prog", prog, 160 * k), ("funcs", funcs, 160 * k), ("pairing", pairing, 40 * k)]
