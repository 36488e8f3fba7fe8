"""Generators of streams of every kind."""
import math, os, struct, tempfile, wave
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ref, rpx, sm


class Made:
    """A stream with what is known about it."""
    def __init__(self, kind, s, w, d, num, span, res, rebuild, dynamic=False, approx=False, ends=None, keep=None, text=""):
        self.kind, self.s, self.w, self.d, self.num, self.span, self.res = kind, s, w, d, num, span, res
        self.rebuild, self.dynamic, self.approx, self.keep, self.text = rebuild, dynamic, approx or num in "DS", keep, text
        self.cx = rpx.ctx(w, d, num)


def inc(c, w, d, num):
    rng = c.rng
    cx = rpx.ctx(w, d, num)
    n = rng.choice([1, 2, 3, 5, 8])
    ts = sm.times(rng, n)
    data = [rpx.lie(cx, num, sm.rand_lie(rng, w, d, num, rng.random() < .5), rng.choice("sd")) for _ in ts]
    if rng.random() < .3:
        # repeated, opposite and zero increments, at regular or random times
        f = [rng.choice([1, 1, 1, -1, 0, 2]) for _ in ts] if rng.random() < .6 else [1] * n
        data = [data[0] * f[i] if rng.random() < .9 else data[i] for i in range(n)]
        if rng.random() < .5:
            ts = [float(math.floor(ts[0])) + i * 2.0 ** -step for step in [rng.choice([0, 1, 2])] for i in range(n)]
    res = rng.choice([0, 1, 2, 3, 5, -1])
    mk = lambda: rp.LieIncrementStream.from_increments(data, indices=ts, ctx=cx, resolution=res)
    return Made("inc", mk(), w, d, num, (ts[0], ts[-1] + 1), res, mk, text="times %s %s" % (ts, [str(x)[:40] for x in data[:3]]))


def tick(c, w, d, num):
    rng = c.rng
    n = rng.choice([2, 3, 5, 8])
    ts = sm.times(rng, n)
    labels = ["c%d" % i for i in range(w)]
    rows = []
    for i, t in enumerate(ts):
        lab = labels[i % w] if i < w else rng.choice(labels)
        rows.append((t, lab, "value" if int(lab[1:]) % 2 else "increment", float(rng.randint(-4, 4))))
    for lab in labels[n:]:
        rows.append((ts[-1], lab, "value" if int(lab[1:]) % 2 else "increment", 1.0))
    res = rng.choice([0, 1, 2, 4])
    mk = lambda: rp.TickStream.from_data(rows, depth=d, width=w, dtype=rpx.KINDS[num], resolution=res)
    s = mk()
    return Made("tick", s, s.width, d, num, (ts[0], ts[-1] + 1), res, mk, text="rows %s" % rows)


def pa(c, w, d, num, dyadic=None):
    rng = c.rng
    cx = rpx.ctx(w, d, num)
    n = rng.choice([1, 2, 3, 5])
    dyadic = (rng.random() < .6 or num == "P") if dyadic is None else dyadic
    pieces, x = [], float(rng.randint(-3, 1))
    for _ in range(n):
        ln = rng.choice([1.0, .5, 2.0, .25]) if dyadic else rng.choice([1.0, .3, 1 / 3, .7, 2.1])
        if rng.random() < .2:
            x += rng.choice([.5, 1.0])
        pieces.append((rp.RealInterval(x, x + ln), rpx.lie(cx, num, sm.rand_lie(rng, w, d, num), rng.choice("sd"))))
        x += ln
    a, b = pieces[0][0].inf(), pieces[-1][0].sup()
    order = list(pieces)
    if rng.random() < .4:
        rng.shuffle(order)
    res = rng.choice([0, 1, 2, 3, 5])
    mk = lambda: rp.PiecewiseAbelianStream.construct(order, ctx=cx, resolution=res)
    m = Made("pa", mk(), w, d, num, (a, b), res, mk, approx=not dyadic, text="pieces %s" % [(str(p), str(l)[:40]) for p, l in order])
    m.pieces = [((p.inf(), p.sup()), rpx.read_lie(l, num)) for p, l in pieces]
    return m


def fn(c, w, d, num):
    """A path whose components are sin, linear and quadratic functions."""
    rng = c.rng
    cx = rpx.ctx(w, d, num)
    co = [(rng.randint(-2, 2), rng.randint(-3, 3), rng.randint(-2, 2)) for _ in range(w)]

    def f(t, ctx):
        return rp.Lie([float(a) + b * t + k * t * t / 4 for a, b, k in co], ctx=ctx)
    res = rng.choice([0, 1, 2, 3])
    mk = lambda: rp.FunctionStream.from_function(f, ctx=cx, resolution=res)
    m = Made("fn", mk(), w, d, num, (-3.0, 4.0), res, mk, dynamic=True, approx=True, text="fn %s" % co)
    m.f = lambda t: [F(a) + b * F(t) + k * F(t) ** 2 / 4 for a, b, k in co]
    return m


def bm(c, w, d, num):
    rng = c.rng
    cx = rpx.ctx(w, d, "D")
    res = rng.choice([0, 1, 2, 3])
    mk = lambda: rp.BrownianStream.with_generator(ctx=cx, width=w, depth=d, resolution=res)
    return Made("bm", mk(), w, d, "D", (-3.0, 4.0), res, None, dynamic=True, approx=True, text="brownian")


def ext(c, w, d, num):
    rng = c.rng
    w = min(w, 3)
    cx = rpx.ctx(w, d, "D")
    tmp = tempfile.TemporaryDirectory(prefix="vp_snd_")
    path = os.path.join(tmp.name, "a.wav")
    rate = rng.choice([8, 16, 100, 441])
    n = rng.choice([1, 2, 5, 20, 60])
    samples = [[rng.randint(-32768, 32767) for _ in range(w)] for _ in range(n)]
    with wave.open(path, "wb") as f:
        f.setnchannels(w)
        f.setsampwidth(2)
        f.setframerate(rate)
        f.writeframes(b"".join(struct.pack("<h", x) for r in samples for x in r))
    res = rng.choice([3, 5, 8])
    kw = dict(ctx=cx, channel_types=[rp.ValueChannel] * w, resolution=res)
    mk = lambda: rp.ExternalDataStream.from_uri(path, **kw)
    m = Made("ext", mk(), w, d, "D", (0.0, n / rate), res, mk, approx=True, keep=tmp, text="wav rate %d n %d" % (rate, n))
    m.samples, m.rate = samples, rate
    return m


def restricted(c, w, d, num):
    rng = c.rng
    m = any_of(c, w, d, num, simple=True)
    a, b = m.span
    x, y = sorted([rng.uniform(a - 1, b + 1), rng.choice([a, b, (a + b) / 2, math.floor(a), math.ceil(b), rng.uniform(a, b)])])
    if x == y:
        y += 1
    iv = rp.RealInterval(x, y)
    mk = None if m.rebuild is None else lambda: m.rebuild().restrict(iv)
    r = Made("restrict." + m.kind, m.s.restrict(iv), m.w, m.d, m.num, m.span, m.res, mk, m.dynamic, m.approx, keep=m.keep,
             text="restrict %s of %s" % (iv, m.text))
    r.base, r.iv = m, iv
    return r


def simplified(c, w, d, num):
    rng = c.rng
    m = any_of(c, w, d, num, simple=True)
    a, b = math.floor(m.span[0]) - 0.0, math.ceil(m.span[1]) + 1.0
    step = rng.choice([1, .5, 2])
    pts = [a + step * i for i in range(1, int((b - a) / step) + 1) if a + step * i < b and (num == "P" or rng.random() < .7)]
    ends = [a] + pts + [b]
    odd = any(math.frexp(y - x)[0] != .5 for x, y in zip(ends, ends[1:]))
    part = rp.Partition(rp.RealInterval(a, b), pts)
    r = rng.choice([1, 2, 3])
    mk = None if m.rebuild is None or m.dynamic else lambda: m.rebuild().simplify(part, resolution=r, ctx=m.cx)
    s = m.s.simplify(part, resolution=r, ctx=m.cx)
    q = Made("simplify." + m.kind, s, m.w, m.d, m.num, (a, b), r, mk, False, m.approx or odd, keep=m.keep, text="simplify %s at %d of %s" % (pts, r, m.text))
    q.base, q.part, q.bounds = m, part, [a] + pts + [b]
    return q


SIMPLE = [inc, tick, pa, fn, bm, ext]


def any_of(c, w, d, num, simple=False, which=None):
    f = which or c.rng.choice(SIMPLE if simple else SIMPLE + [inc, inc, restricted, restricted, simplified])
    if num == "P" and f in (tick, fn, bm, ext):
        num = "R"
    return f(c, w, d, num)


def pick(c, dynamic=None, **kw):
    rng = c.rng
    while True:
        num = rng.choice("RRRDDSP")
        w, d = rng.choice([(1, 2), (2, 2), (2, 3)] if num == "P" else [(1, 2), (1, 4), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2)])
        m = any_of(c, w, d, num, **kw)
        if dynamic is None or m.dynamic == dynamic:
            return m
