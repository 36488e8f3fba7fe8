"""C05 bases: enumeration, key/index bijections, parents, spelled keys."""
from fractions import Fraction
import roughpy as rp
import ref, rpx

RULE = ("one case per (width, depth, coefficient type) configuration, sweeping the whole basis (up to a size cap): enumeration "
        "order, index/key round trips, sizes per degree against closed formulas, parents, keys spelled from letters / nested "
        "brackets used to index and to build elements; plus random spelled keys including invalid ones; "
        "non-trivial: depth >= 2")
ASSUMPTIONS = ["Hall elements are compared through their expansion in words; linear independence of each degree is checked exactly up to a size cap"]
MIN_CASES = 30
CONF = [(1, 1), (1, 2), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 8), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 2),
        (4, 3), (4, 4), (5, 2), (5, 3), (5, 4), (6, 3), (7, 2), (7, 3), (10, 2), (10, 3), (20, 1), (20, 2), (40, 2), (100, 1), (255, 1), (300, 1)]


def rank(rows):
    rows = [dict(r) for r in rows]
    n, piv = 0, []
    for r in rows:
        for k, p in piv:
            if r.get(k):
                f = r[k] / p[k]
                for kk, v in p.items():
                    r[kk] = r.get(kk, 0) - f * v
                    if not r[kk]:
                        del r[kk]
        if r:
            k = min(r)
            piv.append((k, r))
            n += 1
    return n


def enum_tensor(c):
    w, d = CONF[c.idx % len(CONF)]
    kind = "RPDS"[(c.idx // len(CONF)) % 4] if c.tier == "thorough" else c.rng.choice("RPDS")
    cx = rpx.ctx(w, d, kind)
    b = cx.tensor_basis
    c.describe("tensor basis w=%d d=%d %s" % (w, d, kind), nontrivial=d >= 2)
    dim = ref.tdim(w, d)
    c.check(b.width == w and b.depth == d, "tb.shape", lambda: "%s %s" % (b.width, b.depth))
    c.check(b.dimension == dim == cx.tensor_size(d) == b.size(d), "tb.dimension",
            lambda: "%s %s %s want %s" % (b.dimension, cx.tensor_size(d), b.size(d), dim))
    for k in range(d + 1):
        c.check(b.size(k) == ref.tdim(w, k) and cx.tensor_size(k) == ref.tdim(w, k), "tb.size",
                lambda: "degree %d: basis %s context %s want %s" % (k, b.size(k), cx.tensor_size(k), ref.tdim(w, k)))
    want = iter(ref.words(w, d))
    keys = []
    for i, k in enumerate(b):
        wd = next(want, None)
        keys.append((k, wd))
        if not c.check(wd is not None and tuple(k.to_letters()) == wd and k.to_index() == i and k.degree() == len(wd)
                       and str(k) == "(" + ",".join(map(str, wd)) + ")", "tb.order",
                       lambda: "position %d is %s want %s" % (i, k, wd)):
            return
    c.check(next(want, None) is None, "tb.count", lambda: "only %d keys" % len(keys))
    sel = keys if len(keys) <= 400 else keys[:60] + keys[-60:] + c.rng.sample(keys, 200)
    for k, wd in sel:
        i = k.to_index()
        c.check(b.key_to_index(k) == i, "tb.key_to_index", lambda: "%s -> %s want %d" % (k, b.key_to_index(k), i))
        k2 = b.index_to_key(i)
        c.check(tuple(k2.to_letters()) == wd and k2 == k and hash(k2) == hash(k), "tb.index_to_key", lambda: "%d -> %s want %s" % (i, k2, k))
        k3 = rp.TensorKey(*wd, width=w, depth=d)
        k4 = rp.TensorKey(list(wd), width=w, depth=d) if wd else k3
        k5 = rp.TensorKey(index=i, width=w, depth=d)
        c.check(k3 == k and k4 == k and k5 == k, "tb.spelled", lambda: "%s %s %s want %s" % (k3, k4, k5, k))
        c.check(tuple(k.reverse().to_letters()) == wd[::-1], "tb.reverse", lambda: "%s -> %s" % (k, k.reverse()))
        lp, rpar = b.parents(k)
        if wd:
            l, r = b.index_to_key(lp), b.index_to_key(rpar)
            c.check(tuple(l.to_letters()) == wd[:1] and tuple(r.to_letters()) == wd[1:], "tb.parents",
                    lambda: "%s -> %s, %s" % (k, l, r))
        for n in range(len(wd) + 1):
            a, z = k.split_n(n)
            c.check(tuple(a.to_letters()) == wd[:len(wd) - n] and tuple(z.to_letters()) == wd[len(wd) - n:], "tb.split",
                    lambda: "%s split %d -> %s, %s" % (k, n, a, z))
            p = a * z
            c.check(p == k, "tb.concat.reversed" if tuple(p.to_letters()) == tuple(z.to_letters() + a.to_letters()) else "tb.concat",
                    lambda: "%s*%s -> %s" % (a, z, p))
    # unit vectors built from a key are that word and no other
    for k, wd in (c.rng.sample(keys, min(12, len(keys)))):
        for vt in (rp.SparseVector, rp.DenseVector):
            t = rp.FreeTensor({k: rpx.scalar(kind, 3)}, ctx=cx, vector_type=vt)
            r = rpx.read_ft(t, kind)
            c.check(r == {wd: 3}, "tb.build", lambda: "%s gives %s" % (k, rpx.show(r)))
            c.check(rpx.value(t[k], kind) == 3 and rpx.value(t[k.to_index()], kind) == 3, "tb.getitem", lambda: str(k))
    for bad in (dim, dim + 1, 2 ** 40, 2 ** 64 - 1):
        for f in (b.index_to_key, lambda i: t[i], lambda i: rp.TensorKey(index=i, width=w, depth=d)):
            try:
                v = f(bad)
                c.fail("tb.outofrange", "index %d accepted, gives %s" % (bad, v))
            except Exception:  # noqa: BLE001
                c.evals += 1


def nested(h):
    return h if isinstance(h, int) else [nested(h[0]), nested(h[1])]


def enum_lie(c):
    conf = [x for x in CONF if ref.lie_dim(*x) <= 2500]
    w, d = conf[c.idx % len(conf)]
    kind = c.rng.choice("RPDS")
    cx = rpx.ctx(w, d, kind)
    b = cx.lie_basis
    c.describe("lie basis w=%d d=%d %s" % (w, d, kind), nontrivial=d >= 2)
    dim = ref.lie_dim(w, d)
    c.check(b.width == w and b.depth == d, "lb.shape", lambda: "%s %s" % (b.width, b.depth))
    c.check(b.dimension == dim == cx.lie_size(d) == b.size(d), "lb.dimension",
            lambda: "%s %s %s want %s" % (b.dimension, cx.lie_size(d), b.size(d), dim))
    for k in range(1, d + 1):
        c.check(b.size(k) == ref.lie_dim(w, k) and cx.lie_size(k) == ref.lie_dim(w, k), "lb.size",
                lambda: "degree %d: basis %s context %s want %s" % (k, b.size(k), cx.lie_size(k), ref.lie_dim(w, k)))
    keys = list(b)
    hs = [ref.parse_hall(str(k)) for k in keys]
    c.check(len(keys) == dim, "lb.count", lambda: "%d keys want %d" % (len(keys), dim))
    degs = [ref.hall_degree(h) for h in hs]
    c.check(degs == sorted(degs), "lb.order", lambda: str(degs[:40]))
    c.check(len(set(hs)) == len(hs), "lb.distinct", lambda: "repeated Hall elements")
    c.check(hs[:w] == list(range(1, w + 1)), "lb.letters", lambda: str(hs[:w][:10]))
    for k in range(1, d + 1):
        n = sum(1 for x in degs if x == k)
        c.check(n == ref.witt(w, k), "lb.witt", lambda: "degree %d has %d elements want %d" % (k, n, ref.witt(w, k)))
    if dim <= 120 and w <= 6:
        for k in range(2, d + 1):
            rows = [ref.hall_expand(h) for h, g in zip(hs, degs) if g == k]
            c.check(rank(rows) == len(rows), "lb.independent", lambda: "degree %d: rank %d of %d" % (k, rank(rows), len(rows)))
    pos = {h: i for i, h in enumerate(hs)}
    sel = list(range(dim)) if dim <= 200 else list(range(40)) + c.rng.sample(range(dim), 150)
    full = rp.Lie([rpx.scalar(kind, i + 1) for i in range(dim)], ctx=cx) if dim <= 400 else None
    for i in sel:
        h = hs[i]
        k = b.index_to_key(i)
        c.check(str(k) == ref.hall_str(h), "lb.index_to_key", lambda: "%d -> %s want %s" % (i, k, ref.hall_str(h)))
        c.check(b.key_to_index(k) == i, "lb.key_to_index", lambda: "%s -> %s want %d" % (k, b.key_to_index(k), i))
        s = rp.LieKey(nested(h), width=w, depth=d)
        s2 = rp.LieKey(nested(h), basis=b)
        c.check(str(s) == ref.hall_str(h) and str(s2) == ref.hall_str(h), "lb.spelled", lambda: "%s %s want %s" % (s, s2, ref.hall_str(h)))
        c.check(b.key_to_index(s) == i and b.key_to_index(s2) == i, "lb.spelled-index", lambda: "%s -> %s want %d" % (s, b.key_to_index(s), i))
        lp, rpar = b.parents(k)
        if not isinstance(h, int):
            c.check((pos[h[0]] + 1, pos[h[1]] + 1) == (lp, rpar), "lb.parents", lambda: "%s -> %s %s" % (k, lp, rpar))
        if full is not None:
            for kk in (k, s, i + 1):
                v = rpx.value(full[kk], kind)
                c.check(v == i + 1, "lb.getitem", lambda: "[%s] gives %s want %d" % (kk, v, i + 1))
    for i in c.rng.sample(range(dim), min(10, dim)):
        h = hs[i]
        for vt in (rp.SparseVector, rp.DenseVector):
            for kk in (rp.LieKey(nested(h), basis=b), i + 1):
                l = rp.Lie({kk: rpx.scalar(kind, 5)}, ctx=cx, vector_type=vt)
                r = rpx.read_lie(l, kind)
                c.check(r == {h: 5}, "lb.build", lambda: "{%s: 5} gives %s want %s" % (kk, rpx.show(r), ref.hall_str(h)))
    l = rp.Lie([rpx.scalar(kind, 1)], ctx=cx)
    for bad in (dim, dim + 1, 2 ** 40):
        for f in (b.index_to_key, lambda i: l[i + 1]):
            try:
                v = f(bad)
                c.fail("lb.outofrange", "index %d accepted, gives %s" % (bad, v))
            except Exception:  # noqa: BLE001
                c.evals += 1


def spelled(c):
    """Random brackets: those in the basis index their element, others are refused, never taken for another."""
    rng = c.rng
    w, d = rng.choice([(2, 3), (2, 5), (3, 3), (3, 4), (4, 3), (5, 2)])
    cx = rpx.ctx(w, d, "R")
    b = cx.lie_basis
    hl = rpx.hall_list(w, d)
    pos = {h: i for i, h in enumerate(hl)}
    full = rp.Lie(list(range(1, len(hl) + 1)), ctx=cx)

    def rnd(n):
        if n == 1:
            return rng.randint(1, w)
        k = rng.randint(1, n - 1)
        return (rnd(k), rnd(n - k))
    c.describe("w=%d d=%d" % (w, d))
    for _ in range(60):
        h = rnd(rng.randint(1, d))
        c.describe(ref.hall_str(h), nontrivial=not isinstance(h, int))
        try:
            k = rp.LieKey(nested(h), basis=b)
            got = rpx.value(full[k], "R")
            idx = b.key_to_index(k)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        if h in pos:
            c.check(err is None and got == pos[h] + 1 and idx == pos[h], "spelled.value", lambda: "%s: %s" % (ref.hall_str(h), err or got))
        else:
            c.check(err is not None, "spelled.nonhall", lambda: "%s is not in the basis but indexes %s" % (ref.hall_str(h), got))
    for bad in (0, w + 1, [0, 1], [1, w + 1], [1], [1, 2, 3], [], [[1, 2], 0], "ab", 1.5, None, [1, "x"], -1, [-1, 1]):
        try:
            k = rp.LieKey(bad, basis=b)
            v = full[k]
            c.fail("spelled.bad", "LieKey(%r) accepted and gives %s" % (bad, v))
        except Exception:  # noqa: BLE001
            c.evals += 1
    for bad in ((0,), (w + 1,), (1, 0), (1, w + 1), tuple([1] * (d + 1)), ("a",), (-1,), (2 ** 40,)):
        try:
            k = rp.TensorKey(*bad, width=w, depth=d)
            c.fail("spelled.badword", "TensorKey%r accepted as %s" % (bad, k))
        except Exception:  # noqa: BLE001
            c.evals += 1


def iterators(c):
    """Key iterators over sub-ranges."""
    rng = c.rng
    w, d = rng.choice([(2, 3), (3, 3), (1, 4), (4, 2)])
    b = rpx.ctx(w, d, "D").tensor_basis
    lb = rpx.ctx(w, d, "D").lie_basis
    c.describe("w=%d d=%d" % (w, d))
    al = [tuple(x.to_letters()) for x in b]
    i = rng.randrange(len(al))
    j = rng.randrange(i, len(al))
    c.describe("from %d to %d" % (i, j))
    got = [tuple(x.to_letters()) for x in rp.TensorKeyIterator(b.index_to_key(i))]
    c.check(got == al[i:], "iter.tensor-from", lambda: "%s" % got[:5])
    got = [tuple(x.to_letters()) for x in rp.TensorKeyIterator(b.index_to_key(i), b.index_to_key(j))]
    c.check(got == al[i:j], "iter.tensor-range", lambda: "%s" % got[:5])
    ll = [str(x) for x in lb]
    c.check([str(x) for x in rp.LieKeyIterator(lb)] == ll, "iter.lie", "")
    i = rng.randrange(len(ll))
    got = [str(x) for x in rp.LieKeyIterator(lb, i + 1)]
    c.check(got == ll[i:], "iter.lie-from", lambda: "%s" % got[:5])


def families(tier):
    n = len(CONF)
    lc = len([x for x in CONF if ref.lie_dim(*x) <= 2500])
    k = 1 if tier == "quick" else 4
    return [("tensor", enum_tensor, n * k), ("lie", enum_lie, lc * k), ("spelled", spelled, 16 * k * k), ("iterators", iterators, 10 * k)]
