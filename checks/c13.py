"""C13 queries do not depend on history."""
import math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("random histories of signature, log signature, derivative, simplify and restrict calls (several resolutions, depths, coefficient types) on one stream, "
        "with every result then modified in place by the caller; each answer is compared bit for bit with a fresh stream built from the same data, and with its own earlier answer; "
        "streams generated on demand: exact repetition until a finer query, degree one never changes; non-trivial: a repeated query has a non-unit answer")
ASSUMPTIONS = ["a Brownian stream made from Python has no seed argument, so equality of seeded streams is covered by C28's native harness"]
MIN_CASES = 150
SCALE = 2


def queries(c, m, k):
    rng = c.rng
    a, b = m.span
    ln = max(b - a, 1e-3)
    out = []
    for _ in range(k):
        s = rng.random()
        if s < .25:
            n = rng.choice([-2, -1, 0, 1, 2, 3])
            iv = rp.DyadicInterval(rp.Dyadic(math.floor(rng.uniform(a, b) * 2.0 ** n), n))
        elif s < .35:
            iv = None if not m.dynamic else rp.RealInterval(a, b)
        else:
            x, y = sorted([rng.choice([a, a - 1, math.floor(a) + 0.0, rng.uniform(a, b)]), rng.choice([b, b + 1, math.ceil(b) + 0.0, rng.uniform(a, b)])])
            iv = rp.RealInterval(x, y)
        r = rng.choice([None, m.res, m.res + 1, m.res + 3, max(m.res - 1, 0), 0, 2])
        if r is not None:
            while ln * 2.0 ** r > 128:
                r -= 1
        elif ln * 2.0 ** m.res > 128:
            r = m.res
        d = m.d if rng.random() < .7 else rng.randint(1, m.d)
        num = m.num
        if m.num in "RD" and rng.random() < .2:
            num = rng.choice("RDS" if "ext" not in m.kind else "DS")
        kw = {}
        if r is not None:
            kw["resolution"] = r
        if num != m.num:
            kw["ctx"] = rpx.ctx(m.w, d, num)
        elif d != m.d:
            kw["depth"] = d
        out.append((rng.choice(["signature", "log_signature"]), iv, kw, num, d))
    return out


def ask(s, q):
    what, iv, kw, num, d = q
    v = getattr(s, what)(*([] if iv is None else [iv]), **kw)
    return v, (rpx.read_ft(v, num) if what == "signature" else rpx.read_lie(v, num))


def spoil(c, v):
    """What a caller may do to a result it owns."""
    s = c.rng.random()
    if s < .3:
        v += v
    elif s < .5:
        v *= 0
    elif s < .7:
        v *= 3
    elif s < .8:
        v -= v
    elif s < .9:
        v /= 2


def other(c, m, s):
    rng = c.rng
    a, b = m.span
    k = rng.random()
    if k < .3:
        s.restrict(rp.RealInterval(a, (a + b) / 2)).signature()
    elif k < .6:
        iv = rp.RealInterval(math.floor(a), math.ceil(b) + 1.0)
        s.simplify(rp.Partition(iv, [math.floor(a) + .5]), resolution=2, ctx=m.cx).log_signature(iv)
    elif k < .9:
        s.signature_derivative(rp.RealInterval(math.floor(a), math.ceil(b)), rp.Lie([1] * m.w, ctx=m.cx), 1)
    else:
        s.support, s.width, s.ctx, s.dtype


def text(q):
    return "%s(%s, %s)" % (q[0], q[1], {k: str(x) for k, x in q[2].items()})


def histories(c):
    rng = c.rng
    m = kinds.pick(c, dynamic=False)
    while m.rebuild is None:
        m = kinds.pick(c, dynamic=False)
    s = m.s
    c.describe("%s %s w%d d%d %s" % (m.kind, m.num, m.w, m.d, m.text[:140]), nontrivial=False)
    qs = queries(c, m, rng.choice([2, 3, 5]))
    if m.num == "P":
        qs = [q for q in qs if q[3] == "P"]
    if not qs:
        return
    seen = {}
    log = []
    for step in range(3 * len(qs)):
        i = rng.randrange(len(qs))
        if rng.random() < .3:
            other(c, m, s)
            log.append("other")
        v, got = ask(s, qs[i])
        log.append(i)
        if i not in seen:
            f, want = ask(m.rebuild(), qs[i])
            c.check(got == want, "fresh", lambda: "%s after %s: %s" % (text(qs[i]), log, rpx.diff(got, want) if qs[i][0] == "signature" else (str(got)[:300], str(want)[:300])))
            c.check(v == f and not v != f, "fresh.eq", lambda: "%s: the results compare unequal" % text(qs[i]))
            seen[i] = got
        else:
            c.check(got == seen[i], "repeat", lambda: "%s after %s: %s was %s" % (text(qs[i]), log, str(got)[:300], str(seen[i])[:300]))
        if [k for k in got if k != ()] and log.count(i) > 1:
            c.describe("repeated " + text(qs[i]))
        if rng.random() < .5:
            spoil(c, v)


def one(d, what):
    return {k: v for k, v in d.items() if (len(k) == 1 if isinstance(k, tuple) and what == "signature" else isinstance(k, int))}


def dynamic(c):
    rng = c.rng
    m = kinds.any_of(c, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice("DDR"), which=rng.choice([kinds.fn, kinds.bm, kinds.bm]))
    s = m.s
    c.describe("%s %s w%d d%d" % (m.kind, m.num, m.w, m.d), nontrivial=False)
    grid = []
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice([0, 1, 2, 3])
        x = rng.randint(-3 * 2 ** k, 4 * 2 ** k) / 2 ** k
        y = rng.randint(-3 * 2 ** k, 4 * 2 ** k) / 2 ** k
        if x != y:
            grid.append((min(x, y), max(x, y), k))
    seen, exact = {}, {}
    log = []
    for step in range(14):
        if not grid:
            return
        x, y, k = rng.choice(grid)
        r = k + rng.choice([0, 0, 1, 2, 4])
        iv = rp.RealInterval(x, y)
        what = rng.choice(["signature", "log_signature"])
        v = getattr(s, what)(iv, r)
        got = rpx.read_ft(v, m.num) if what == "signature" else rpx.read_lie(v, m.num)
        key = (x, y, r, what)
        log.append(key)
        for k2 in [k2 for k2 in exact if k2[2] < r]:
            del exact[k2]                # something finer was asked since
        if key in exact:
            c.check(got == exact[key], "dynamic.repeat", lambda: "%s: %s was %s after %s" % (key, str(got)[:200], str(exact[key])[:200], log))
        else:
            exact[key] = got
        o = one(got, what)
        o = {(k[0] if isinstance(k, tuple) else k): float(v) for k, v in o.items()}
        if (x, y) in seen:
            c.describe("again [%s,%s) %d" % (x, y, r))
            w = seen[(x, y)]
            ok = all(abs(o.get(i, 0) - w.get(i, 0)) <= 1e-9 * (1 + abs(w.get(i, 0))) for i in range(1, m.w + 1))
            c.check(ok, "dynamic.degree_one", lambda: "[%s,%s) r=%d: %s was %s after %s" % (x, y, r, o, w, log))
        seen.setdefault((x, y), o)
        if rng.random() < .5:
            spoil(c, v)


def cells(c):
    """The answer over an interval at a resolution is the product of the answers over its cells of that resolution, whatever was asked before and between."""
    rng = c.rng
    m = kinds.any_of(c, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice("DDR"), which=rng.choice([kinds.fn, kinds.bm, kinds.bm]))
    s = m.s
    c.describe("%s %s w%d d%d" % (m.kind, m.num, m.w, m.d), nontrivial=False)
    log = []

    def ask(x, y, r):
        log.append((x, y, r))
        return s.signature(rp.RealInterval(x, y), r)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.choice([0, 0, 1, 2])
        x, y = sorted(rng.randint(-2 * 2 ** k, 3 * 2 ** k) / 2 ** k for _ in "ab")
        if x != y:
            ask(x, y, k + rng.choice([0, 0, 1, 2]))
    for _ in range(2):
        if log and rng.random() < .7:
            x, y, r0 = rng.choice(log)
        else:
            k = rng.choice([0, 1])
            x, y, r0 = rng.randint(-2, 1) / 2 ** k, rng.randint(2, 4) / 2 ** k, k
        # at least as fine as everything asked before: coarser answers may use what finer questions made
        r = max([r0] + [l[2] for l in log]) + rng.choice([0, 1, 1, 2, 3])
        n = int((y - x) * 2 ** r)
        if n > 40 or n < 1:
            continue
        whole = rpx.read_ft(ask(x, y, r), m.num)
        order = list(range(n))
        rng.shuffle(order)
        got = {i: rpx.read_ft(ask(x + i * 2.0 ** -r, x + (i + 1) * 2.0 ** -r, r), m.num) for i in order}
        want = {(): F(1)}
        for i in range(n):
            want = ref.mul(want, got[i], m.d)
        c.describe("cells [%s,%s) %d" % (x, y, r), nontrivial=n > 1)
        again = rpx.read_ft(ask(x, y, r), m.num)
        for what, v in (("whole", whole), ("again", again)):
            ok = all(abs(float(v.get(k, 0)) - float(want.get(k, 0))) <= 1e-8 * (1 + abs(float(want.get(k, 0)))) for k in set(v) | set(want))
            c.check(ok, "dynamic.cells." + what, lambda: "[%s,%s) r=%d: %s after %s" % (x, y, r, rpx.diff(v, want), log[:14]))


def copies(c):
    """Data given to a stream belongs to the stream: changing the source objects afterwards has no effect."""
    rng = c.rng
    import numpy as np
    w, d, num = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice("RD")
    cx = rpx.ctx(w, d, num)
    n = rng.choice([1, 2, 5])
    ts = sm.times(rng, n)
    mode = rng.choice(["np", "lies", "list", "pieces"])
    c.describe("%s %s w%d d%d %s" % (mode, num, w, d, ts))
    if mode == "np":
        a = np.array([[float(rng.randint(-4, 4)) for _ in range(w)] for _ in range(n)])
        t = np.array(ts)
        s = rp.LieIncrementStream.from_increments(a, indices=t, ctx=cx, resolution=2)
        s2 = rp.LieIncrementStream.from_increments(a.copy(), indices=t.copy(), ctx=cx, resolution=2)
        a[:] = 77
        t[:] = 1e3
    elif mode == "lies":
        data = [rpx.lie(cx, num, sm.rand_lie(rng, w, d, num), rng.choice("sd")) for _ in ts]
        s = rp.LieIncrementStream.from_increments(data, indices=ts, ctx=cx, resolution=2)
        s2 = rp.LieIncrementStream.from_increments([rpx.lie(cx, num, rpx.read_lie(x, num), "d") for x in data], indices=ts, ctx=cx, resolution=2)
        for x in data:
            x *= 5
            x += rp.Lie([1] * w, ctx=cx)
    elif mode == "list":
        data = [[float(rng.randint(-4, 4)) for _ in range(w)] for _ in range(n)]
        s = rp.LieIncrementStream.from_increments(data, indices=ts, ctx=cx, resolution=2)
        s2 = rp.LieIncrementStream.from_increments([list(x) for x in data], indices=ts, ctx=cx, resolution=2)
        for x in data:
            x[:] = [9.0] * w
    else:
        lies = [rpx.lie(cx, num, sm.rand_lie(rng, w, d, num), rng.choice("sd")) for _ in range(3)]
        mk = lambda ls: rp.PiecewiseAbelianStream.construct([(rp.RealInterval(i, i + 1), l) for i, l in enumerate(ls)], ctx=cx)
        s, s2 = mk(lies), mk([rpx.lie(cx, num, rpx.read_lie(x, num), "d") for x in lies])
        for x in lies:
            x *= 5
    for _ in range(3):
        x, y = sm.rquery(rng, ts)
        iv = rp.RealInterval(x, y)
        g, h = rpx.read_ft(s.signature(iv, 3), num), rpx.read_ft(s2.signature(iv, 3), num)
        c.check(g == h, "source", lambda: "%s after the source changed: %s" % (iv, rpx.diff(g, h)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("history", histories, 700 * k), ("cells", cells, 300 * k), ("dynamic", dynamic, 400 * k), ("source", copies, 200 * k)]
