"""C11 increment streams."""
import math
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ref, rpx, sm
from sm import flo, cei

RULE = ("streams of timed increments (letters and brackets, ties, unsorted rows, times on and off the grid and one ulp beside it, explicit and "
        "derived resolutions, every coefficient type) queried over random intervals at coarser, equal and finer resolutions and depths, "
        "also as dyadic intervals; log signature and signature compared with the ordered product of exponentials of exactly the increments "
        "the rounded query covers; non-trivial: the query covers at least one increment")
ASSUMPTIONS = ["an increment at time t counts as lying at the left end of the stream-resolution grid cell that contains t when the query is finer than the stream",
               "a query that reaches an end of the stream's support takes in everything up to that end",
               "floating coefficient types are compared within a forward error bound"]
MIN_CASES = 200
SCALE = 4
SHAPES = [(1, 2), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2), (5, 2)]


def build(c, kind, w, d, letters=None):
    """(stream, incs, stream resolution)"""
    rng = c.rng
    cx = rpx.ctx(w, d, kind)
    n = rng.choice([1, 1, 2, 3, 4, 6, 9])
    ts = sm.times(rng, n)
    letters = rng.random() < 0.6 if letters is None else letters
    incs = [[t, sm.rand_lie(rng, w, d, kind, letters)] for t in ts]
    res = rng.choice([None, 0, 1, 2, 3, 5, 8, 12, -1, -2])
    kw = dict(ctx=cx)
    if res is not None:
        kw["resolution"] = res
    mode = rng.choice(["indices", "indices", "plain", "dicts", "npidx"])
    if rng.random() < .2:
        kw["vtype"] = rng.choice([rp.DenseVector, rp.SparseVector])
    order = list(range(n))
    if mode != "plain" and rng.random() < .3:
        rng.shuffle(order)           # rows need not be sorted; ties keep the row order
    rows = [incs[i] for i in order]
    if mode == "plain":
        for i, r in enumerate(rows):
            r[0] = float(i)
        res = 0
    tt = [r[0] for r in rows]
    data = []
    for t, l in rows:
        if mode == "dicts" and l and kind in "DR" and all(isinstance(h, int) for h in l):
            data.append({h: rpx.scalar(kind, x) for h, x in l.items()})
        elif letters and rng.random() < .6 and kind != "P":
            data.append([rpx.scalar(kind, l.get(i, F(0))) for i in range(1, w + 1)])
        else:
            data.append(rpx.lie(cx, kind, l, rng.choice("sd")))
    if mode != "plain":
        kw["indices"] = np.array(tt) if mode == "npidx" else tt
    include = False
    s = c.call("build", rp.LieIncrementStream.from_increments, data, **kw)
    res = s.resolution
    # equal times: data order
    model = sm.Model(w, kind, [], res)
    model.ends = (s.support.inf(), s.support.sup())
    c.check(model.ends[0] <= min(tt) and max(tt) < model.ends[1], "support", lambda: "support %s of times %s" % (s.support, tt))
    model.incs = sorted([(t, l) for t, l in rows], key=lambda x: x[0])
    c.describe("%s w%d d%d %s res=%s incs=%s" % (kind, w, d, mode, res, [(t, rpx.show(l, 4)) for t, l in rows][:9]), nontrivial=False)
    return s, model, cx


def ask(c, s, model, cx, kind, w, d, known_low=None):
    rng = c.rng
    ts = [t for t, _ in model.incs]
    res = model.res
    a, b = sm.rquery(rng, ts, res=max(min(res, 12), -3))
    form = rng.choice(["real", "real", "real", "dyadic", "all", "pair"])
    r = rng.choice([None, None, res, res, res + 1, res + 3, res - 1, res - 2, 0, 4])
    if form == "dyadic":
        iv = rp.DyadicInterval(rp.Dyadic(rng.randint(-12, 12), rng.choice([0, 1, 2, 3, -1, -2])))
        a, b = iv.inf(), iv.sup()
    elif form == "all":
        iv = None
        a, b = s.support.inf(), s.support.sup()
    else:
        iv = rp.RealInterval(a, b)
    q = [] if iv is None else [iv]
    if form == "pair":
        q = [a, b]
    kw = {}
    if r is not None:
        kw["resolution"] = r
    else:
        lo, hi = max(a, s.support.inf()), min(b, s.support.sup())
        if hi <= lo:
            r = res
        else:
            r = sm.auto_res(res, hi - lo)
    dd = d
    if rng.random() < .25:
        dd = rng.randint(1, d)
        if rng.random() < .5:
            kw["depth"] = dd
        else:
            kw["ctx"] = rpx.ctx(w, dd, kind)
    lies = [l for _, l in model.incs] if form == "all" else model.covered(a, b, r)
    text = "query %s [%r, %r) r=%s %s" % (form, a, b, r, {k: str(v) for k, v in kw.items()})
    c.describe(text, nontrivial=bool(lies))
    want = sm.product(lies, dd)
    scale = sm.bound(lies, dd, kind)
    f = (lambda: (s.signature(*q, **kw), s.log_signature(*q, **kw)))
    try:
        S, L = f()
    except RuntimeError as e:
        c.check(False, "query.raises", "%s: %s" % (text, e))
        return
    ok, got = sm.same_sig(S, want, kind, scale)
    c.check(ok, "signature", lambda: text + ": " + rpx.diff(got, want))
    wl = ref.log(want, dd)
    ok, got2 = sm.same_log(L, wl, kind, scale)
    c.check(ok, "log_signature", lambda: text + ": " + rpx.diff(got2, wl))
    c.check(S.width == w and S.max_degree == dd and L.max_degree == dd, "query.shape", lambda: text + " gave width %s depth %s/%s" % (S.width, S.max_degree, L.max_degree))


def random_streams(c):
    rng = c.rng
    kind = rng.choice("RRRRDDSP")
    w, d = rng.choice([(1, 2), (2, 2), (2, 3)] if kind == "P" else SHAPES)
    s, model, cx = build(c, kind, w, d)
    for _ in range(6):
        ask(c, s, model, cx, kind, w, d)


def window(c):
    """A query that contains all the data sees all of it, at every resolution; one that misses it sees nothing."""
    rng = c.rng
    kind = rng.choice("RRD")
    w, d = rng.choice([(2, 2), (2, 3), (3, 2)])
    s, model, cx = build(c, kind, w, d)
    lies = [l for _, l in model.incs]
    want = sm.product(lies, d)
    scale = sm.bound(lies, d, kind)
    t0, t1 = model.incs[0][0], model.incs[-1][0]
    c.describe("whole", nontrivial=True)
    for _ in range(4):
        step = 2.0 ** rng.randint(0, 5)
        r = model.res + rng.choice([0, 0, 1, 4])
        a = float(flo(t0, min(r, 20))) - rng.choice([0, step])
        b = float(cei(t1, min(model.res, 20))) + 2.0 ** -min(model.res, 20) + rng.choice([0, step])
        S = s.signature(rp.RealInterval(a, b), r)
        if flo(F(a), r) <= flo(t0, model.res):
            ok, got = sm.same_sig(S, want, kind, scale)
            c.check(ok, "whole", lambda: "[%r,%r) r=%d: %s" % (a, b, r, rpx.diff(got, want)))
    for a, b in [(t1 + 2.0 ** (3 - min(0, model.res)), t1 + 100), (t0 - 100, t0 - 2.0 ** (3 - min(0, model.res)))]:
        S, L = s.signature(rp.RealInterval(a, b)), s.log_signature(rp.RealInterval(a, b))
        c.check(rpx.read_ft(S, kind) == {(): 1}, "outside.signature", lambda: "[%r,%r): %s" % (a, b, S))
        c.check(not rpx.read_lie(L, kind), "outside.log_signature", lambda: "[%r,%r): %s" % (a, b, L))


def timed_channel(c):
    """include_time adds the time elapsed as the last channel."""
    rng = c.rng
    kind = rng.choice("RD")
    w = rng.choice([1, 2, 3])
    d = rng.choice([1, 2, 3])
    cx = rpx.ctx(w + 1, d, kind)
    n = rng.choice([1, 2, 3, 5])
    ts = sorted(rng.sample([x / 8 for x in range(0, 60)], n))
    rows = [[F(rng.randint(-4, 4)) for _ in range(w)] for _ in range(n)]
    res = rng.choice([3, 4, 6])
    s = c.call("time.build", rp.LieIncrementStream.from_increments, np.array([[float(x) for x in r] for r in rows]),
               indices=ts, ctx=cx, include_time=True, resolution=res)
    incs, prev = [], 0.0
    for t, r in zip(ts, rows):
        l = {i + 1: x for i, x in enumerate(r) if x}
        if t != prev:
            l[w + 1] = F(t) - F(prev)
        incs.append((t, l))
        prev = t
    model = sm.Model(w + 1, kind, incs, res, ends=(s.support.inf(), s.support.sup()))
    c.describe("time %s w%d d%d res %d %s" % (kind, w, d, res, [(t, rpx.show(l)) for t, l in incs]), nontrivial=False)
    for _ in range(4):
        ask(c, s, model, cx, kind, w + 1, d)


def long_streams(c):
    rng = c.rng
    kind = rng.choice("DDR")
    w, d = rng.choice([(2, 2), (2, 3), (3, 2)])
    n = rng.choice([40, 80])
    cx = rpx.ctx(w, d, kind)
    ts = sorted(rng.uniform(0, 10) for _ in range(n))
    rows = [[F(rng.randint(-3, 3)) / (8 if kind == "D" else 1) for _ in range(w)] for _ in range(n)]
    res = rng.choice([2, 4, 6, 10])
    s = rp.LieIncrementStream.from_increments(np.array([[float(x) for x in r] for r in rows]), indices=ts, ctx=cx, resolution=res)
    model = sm.Model(w, kind, [(t, {i + 1: x for i, x in enumerate(r) if x}) for t, r in zip(ts, rows)], res, ends=(s.support.inf(), s.support.sup()))
    c.describe("long %s n%d res %d %s" % (kind, n, res, ts[:3]), nontrivial=False)
    for _ in range(3):
        ask(c, s, model, cx, kind, w, d)


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("streams", random_streams, 700 * k), ("whole", window, 250 * k), ("time", timed_channel, 150 * k), ("long", long_streams, 40 * k)]
