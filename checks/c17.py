"""C17 function, sampled, sound and tensor-valued streams."""
import math, os, struct, tempfile
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("functions of time (polynomial, polygonal, with jumps, with brackets) queried over grid-aligned intervals at several accuracies in random order, "
        "against the product of the changes of the function over the cells; sound files of several containers, sample formats, rates and channel counts written by the check, "
        "queried over windows against the decoded samples; tensor-valued streams made from increments or from values, with nested queries, against the initial value times the "
        "product of the covered increments; non-trivial: a query covers data")
ASSUMPTIONS = ["frame k of a sound file is at time k / rate, samples are scaled to [-1, 1), and the first frame is where the path starts",
               "a function that is evaluated at coarser accuracy is only known at the cell ends of that accuracy; after a finer query the finer value may be reported",
               "floating coefficient types are compared within a forward error bound"]
MIN_CASES = 150
SCALE = 3


# ---- functions ---------------------------------------------------------------
def rfun(c, w, d, kind):
    """(f(t) -> {hall: Fraction}, knot level or None, text)"""
    rng = c.rng
    form = rng.choice(["poly", "polygon", "jumps", "bracket"])
    if form in ("poly", "bracket"):
        co = {i: [F(rng.randint(-4, 4), rng.choice([1, 2, 4])) for _ in range(rng.randint(1, 3))] for i in range(1, w + 1)}
        if form == "bracket" and w > 1 and d > 1:
            co[(1, 2)] = [F(rng.randint(-4, 4)), F(rng.randint(-3, 3), 2)]

        def f(t):
            t = F(t)
            return {h: x for h, x in ((h, sum(q * t ** i for i, q in enumerate(cs))) for h, cs in co.items()) if x}
        return f, None, "%s %s" % (form, {h: [str(x) for x in cs] for h, cs in co.items()})
    k = rng.choice([0, 0, 1, 2])
    vals = {}

    def knot(i):
        if i not in vals:
            vals[i] = {h: F(x) for h, x in ((h, rng2.randint(-3, 3)) for h in range(1, w + 1)) if x}
        return vals[i]
    import random
    rng2 = random.Random(rng.random())
    for i in range(-80, 81):
        knot(i)

    def g(t):
        t = F(t) * 2 ** k
        i = math.floor(t)
        if form == "jumps":
            return knot(max(-80, min(80, i)))
        u = t - i
        return ref.clean(ref.add(ref.scale(knot(i), 1 - u), ref.scale(knot(i + 1), u))) if u else knot(i)
    return g, k, "%s level %d" % (form, k)


def cells(f, a, b, r):
    out = []
    h = F(1) / F(2) ** r
    x = F(a)
    while x < b:
        out.append(ref.clean(ref.sub(f(x + h), f(x))))
        x += h
    return out


def make_fn(c, f, cx, kind, vt, **kw):
    def call(t, ctx):
        if ctx != cx:
            c.fail("fn.ctx", "the function was given context %s, not %s" % (ctx, cx))
        return rpx.lie(ctx, kind, f(t), vt)
    return rp.FunctionStream.from_function(call, ctx=cx, **kw)


def compare(c, s, iv, kw, lies, dd, kind, key, text):
    want = sm.product(lies, dd)
    scale = sm.bound(lies, dd, kind)
    S, L = (c.call(key, g, iv, **kw) if iv is not None else c.call(key, g, **kw) for g in (s.signature, s.log_signature))
    ok, got = sm.same_sig(S, want, kind, scale)
    c.check(ok, key + ".signature", lambda: text + ": " + rpx.diff(got, want))
    wl = ref.log(want, dd)
    ok, got2 = sm.same_log(L, wl, kind, scale)
    c.check(ok, key + ".log_signature", lambda: text + ": " + rpx.diff(got2, wl))


def pick(c):
    rng = c.rng
    kind = rng.choice("RRDDS")
    w, d = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)])
    return kind, w, d, rpx.ctx(w, d, kind)


def window(rng, r, span=4):
    n = 2 ** r
    i, j = sorted(rng.sample(range(-span * n, span * n + 1), 2))
    if j - i > 24:
        j = i + rng.randint(1, 24)
    return F(i, n), F(j, n)


def functions(c):
    """One accuracy per stream: the answer is the product over the cells of that accuracy."""
    rng = c.rng
    kind, w, d, cx = pick(c)
    f, k, text = rfun(c, w, d, kind)
    r = rng.choice([0, 1, 2, 3])
    res = rng.choice([r, 0, r + 1])
    sup = None
    kw = dict(resolution=res)
    if rng.random() < .3:
        sup = window(rng, rng.randint(0, r))
        kw["support"] = rp.RealInterval(float(sup[0]), float(sup[1]))
    s = make_fn(c, f, cx, kind, rng.choice("sd"), **kw)
    c.describe("fn %s w%d d%d %s at %d (default %d) support %s" % (kind, w, d, text, r, res, sup), nontrivial=False)
    for _ in range(4):
        a, b = window(rng, r)
        if rng.random() < .25:
            n = rng.randint(-1, r)
            q = rng.randint(-6, 6)
            a, b = F(q) / F(2) ** n, F(q + 1) / F(2) ** n
            iv = rp.DyadicInterval(rp.Dyadic(q, n))
        else:
            iv = rp.RealInterval(float(a), float(b))
        x, y = (a, b) if sup is None else (max(a, sup[0]), min(b, sup[1]))
        lies = cells(f, x, y, r) if x < y else []
        dd = rng.choice([d, d, rng.randint(1, d)])
        q = dict(resolution=r)
        if dd != d:
            q["depth"] = dd
        t = "[%s,%s) at %d depth %d" % (a, b, r, dd)
        c.describe(t, nontrivial=any(lies))
        compare(c, s, iv, q, lies, dd, kind, "fn", t)


def polygons(c):
    """Any order of accuracies: a polygonal path is known exactly at its knots."""
    rng = c.rng
    kind, w, d, cx = pick(c)
    while True:
        f, k, text = rfun(c, w, d, kind)
        if text.startswith("polygon"):
            break
    s = make_fn(c, f, cx, kind, rng.choice("sd"), resolution=rng.choice([k, k + 1, k + 2]))
    dr = s.resolution
    c.describe("polygon %s w%d d%d level %d default %d" % (kind, w, d, k, dr), nontrivial=False)
    for _ in range(6):
        r = rng.choice([None, k, k, k + 1, k + 2, k + 3])
        a, b = window(rng, min(dr if r is None else r, k + 2))
        q = {} if r is None else dict(resolution=r)
        lies = []
        x = a
        while x < b:
            y = min(b, sm.flo(x, k) + F(1) / F(2) ** k)
            lies.append(ref.clean(ref.sub(f(y), f(x))))
            x = y
        t = "[%s,%s) at %s" % (a, b, r)
        c.describe(t, nontrivial=any(lies))
        compare(c, s, rp.RealInterval(float(a), float(b)), q, lies, d, kind, "polygon", t)


class Boom(Exception):
    pass


def broken(c):
    """A function that raises, or returns something else, fails that query and nothing more."""
    rng = c.rng
    kind, w, d, cx = pick(c)
    f, k, text = rfun(c, w, d, kind)
    state = {"bad": None}

    def call(t, ctx):
        if state["bad"] == "raise" and state["n"] <= 0:
            raise Boom("boom %s" % t)
        state["n"] -= 1
        if state["bad"] in (None, "raise"):
            return rpx.lie(ctx, kind, f(t), "d")
        return state["bad"]
    s = rp.FunctionStream.from_function(call, ctx=cx, resolution=1)
    c.describe("broken function %s w%d d%d %s" % (kind, w, d, text), nontrivial=True)
    r = 1
    for _ in range(5):
        a, b = window(rng, r)
        iv = rp.RealInterval(float(a), float(b))
        t = "[%s,%s)" % (a, b)
        state["n"] = 0
        if rng.random() < .6:
            state["bad"] = rng.choice(["raise", None, 3, "x", [1.0] * w, (), rp.FreeTensor([1.0], ctx=cx)])
            state["n"] = rng.randint(0, 3)
            bad = state["bad"]
            try:
                g = s.signature(iv, resolution=r)
            except Boom:
                c.check(bad == "raise", "broken.which", "the exception of the function came from nowhere")
            except Exception as e:  # noqa: BLE001
                c.check(bad != "raise" or "boom" in str(e), "broken.exception", lambda: "%r became %s: %s" % (bad, type(e).__name__, e))
            state["bad"] = None
        compare(c, s, iv, dict(resolution=r), cells(f, a, b, r), d, kind, "broken", t)


# ---- sound files ---------------------------------------------------------------
def enc(fmt, x, big):
    e = ">" if big else "<"
    if fmt == "u8":
        return struct.pack("B", x + 128)
    if fmt == "s8":
        return struct.pack("b", x)
    if fmt == "s16":
        return struct.pack(e + "h", x)
    if fmt == "s24":
        b = struct.pack(e + "i", x)
        return b[1:] if big else b[:3]
    if fmt == "s32":
        return struct.pack(e + "i", x)
    return struct.pack(e + ("f" if fmt == "f32" else "d"), float(x))


BITS = {"u8": 8, "s8": 8, "s16": 16, "s24": 24, "s32": 32, "f32": 32, "f64": 64}


def wav(fmt, rate, ch, rows):
    data = b"".join(enc(fmt, x, False) for r in rows for x in r)
    b = BITS[fmt] // 8
    fm = struct.pack("<HHIIHH", 3 if fmt[0] == "f" else 1, ch, rate, rate * ch * b, ch * b, BITS[fmt])
    pad = b"\0" * (len(data) & 1)
    body = b"WAVEfmt " + struct.pack("<I", len(fm)) + fm + b"data" + struct.pack("<I", len(data)) + data + pad
    return b"RIFF" + struct.pack("<I", len(body)) + body


def au(fmt, rate, ch, rows):
    data = b"".join(enc(fmt, x, True) for r in rows for x in r)
    code = {"s8": 2, "s16": 3, "s24": 4, "s32": 5, "f32": 6, "f64": 7}[fmt]
    return struct.pack(">4sIIIII", b".snd", 24, len(data), code, rate, ch) + data


def aiff(fmt, rate, ch, rows):
    data = b"".join(enc(fmt, x, True) for r in rows for x in r)
    m, e = math.frexp(float(rate))
    ext = struct.pack(">HQ", 16383 + e - 1, int(m * 2 ** 64))
    comm = struct.pack(">hIh", ch, len(rows), BITS[fmt]) + ext
    ssnd = struct.pack(">II", 0, 0) + data + b"\0" * (len(data) & 1)
    body = b"AIFFCOMM" + struct.pack(">I", len(comm)) + comm + b"SSND" + struct.pack(">I", 8 + len(data)) + ssnd
    return b"FORM" + struct.pack(">I", len(body)) + body


FORMATS = [("wav", wav, ["u8", "s16", "s24", "s32", "f32", "f64"]), ("au", au, ["s8", "s16", "s24", "s32", "f32", "f64"]), ("aiff", aiff, ["s8", "s16", "s24", "s32"])]


def sound(c):
    rng = c.rng
    ext, make, fmts = rng.choice(FORMATS)
    fmt = rng.choice(fmts)
    ch = rng.choice([1, 1, 2, 2, 3, 5])
    d = rng.choice([1, 2, 2, 3]) if ch < 4 else 2
    rate = rng.choice([8, 16, 100, 441, 1000, 8000, 44100])
    n = rng.choice([1, 2, 3, 5, 20, 60, 200]) if d < 3 else rng.choice([2, 5, 20])
    if fmt[0] == "f":
        rows = [[struct.unpack("<f", struct.pack("<f", rng.uniform(-1, 1)))[0] for _ in range(ch)] for _ in range(n)]
        val = [[F(x) for x in r] for r in rows]
    else:
        m = 2 ** (BITS[fmt] - 1)
        rows = [[rng.choice([rng.randint(-m, m - 1), rng.randint(-m, m - 1), -m, m - 1, 0]) for _ in range(ch)] for _ in range(n)]
        val = [[F(x, m) for x in r] for r in rows]
    kind = rng.choice("DDDS")
    types = rng.choice(["none", "value", "increment", "mixed", "dict"])
    kw, increments = {}, [True] * ch
    TY = {True: rp.IncrementChannel, False: rp.ValueChannel}
    if types != "none":
        increments = {"value": [False] * ch, "increment": [True] * ch}.get(types) or [rng.random() < .5 for _ in range(ch)]
        ts = [TY[i] for i in increments]
        kw["channel_types"] = {"ch%d" % i: t for i, t in enumerate(ts)} if types == "dict" else ts
    how = rng.choice(["ctx", "ctx", "depth", "dtype"])
    if how == "ctx":
        kw["ctx"] = rpx.ctx(ch, d, kind)
    elif how == "dtype":
        kw.update(depth=d, dtype=rpx.KINDS[kind])
    else:
        kw["depth"] = d
        kind = "S" if fmt == "f32" else "D"
    res = 10
    if rng.random() < .7:
        res = rng.choice([0, 3, 5, 8, 12])
        kw["resolution"] = res
    with tempfile.TemporaryDirectory(prefix="vp_snd_") as tmp:
        path = os.path.join(tmp, rng.choice(["a.", "sound file.", "a-b_c."]) + ext)
        open(path, "wb").write(make(fmt, rate, ch, rows))
        s = c.call("sound", rp.ExternalDataStream.from_uri, path, **kw)
        c.describe("%s %s rate %d ch %d frames %d %s %s %s: %s" % (ext, fmt, rate, ch, n, types, how, kw.get("resolution"), rows[:4]), nontrivial=False)
        c.check(s.resolution == res, "sound.resolution", lambda: "%s, not %s" % (s.resolution, res))
        c.check(s.width == ch, "sound.width", lambda: "%d" % s.width)
        c.check(s.dtype == rpx.KINDS[kind] or how == "depth", "sound.dtype", lambda: "%s" % s.dtype)
        kind = {v: k for k, v in rpx.KINDS.items()}[s.dtype]
        c.check(abs(s.support.sup() - n / rate) < 1e-12 and s.support.inf() == 0, "sound.support", lambda: "%s" % s.support)
        incs = []
        for k in range(1, n):
            row = {}
            for i in range(ch):
                x = val[k][i] if increments[i] else val[k][i] - val[k - 1][i]
                if x:
                    row[i + 1] = x
            incs.append((F(k, rate), row))
        for _ in range(4):
            r = rng.choice([None, res, res + 1, max(res - 1, 0), 3])
            end = F(n, rate)
            if rng.random() < .3:
                a, b, iv = F(0), end, None
            else:
                g = 2 ** rng.choice([0, 1, 3, min(res, 8)])
                a, b = sorted(F(math.floor(float(end) * rng.uniform(-.2, 1.3) * g + rng.random()), g) for _ in range(2))
                if rng.random() < .3:
                    b = max(a, F(math.ceil(end)) + rng.choice([0, 1]))
                if a == b:
                    b += F(1, g)
                iv = rp.RealInterval(float(a), float(b))
            x, y = max(a, F(0)), min(b, end)
            if x >= y:
                lies, rr = [], 0
            else:
                rr = r if r is not None else sm.auto_res(res, F(s.support.sup()) - max(x, 0) if b >= end else y - x)
                lo = sm.flo(x, rr)
                hi = end if b >= end else sm.flo(y, rr)
                # the frames in a cell of the stream's resolution belong to its start
                lies = [l for t, l in incs if lo <= (sm.flo(t, res) if rr > res else t) < hi]
            if len(lies) > 70 and d > 2:
                continue
            t = "%s at %s" % (iv, r)
            c.describe(t, nontrivial=any(lies))
            compare(c, s, iv, {} if r is None else dict(resolution=r), lies, d, kind, "sound", t)


def badsound(c):
    """Files that are missing, empty, cut short or damaged: an exception or a stream that can be queried."""
    rng = c.rng
    ext, make, fmts = rng.choice(FORMATS)
    fmt, ch, rate = rng.choice(fmts), rng.choice([1, 2]), rng.choice([8, 100, 8000])
    rows = [[rng.randint(-100, 100) / (100 if fmt[0] == "f" else 1) for _ in range(ch)] for _ in range(20)]
    rows = [[x if fmt[0] == "f" else int(x) for x in r] for r in rows]
    raw = make(fmt, rate, ch, rows)
    how = rng.choice(["missing", "empty", "cut", "cut", "flip", "flip", "dir", "text", "width", "removed"])
    if how == "empty":
        raw = b""
    elif how == "cut":
        raw = raw[:rng.randint(1, len(raw) - 1)]
    elif how == "flip":
        raw = bytearray(raw)
        for _ in range(rng.randint(1, 4)):
            raw[rng.randint(0, min(60, len(raw) - 1))] = rng.choice([0, 255, 127, 128, rng.randint(0, 255)])
        raw = bytes(raw)
    elif how == "text":
        raw = b"not a sound file\n" * 20
    kw = dict(depth=2)
    if how == "width":
        kw = dict(ctx=rpx.ctx(ch + 1, 2, "D"))
    c.describe("%s %s %s %r" % (how, ext, fmt, raw[:48]), nontrivial=True)
    with tempfile.TemporaryDirectory(prefix="vp_snd_") as tmp:
        path = os.path.join(tmp, "a." + ext)
        if how != "missing":
            open(path, "wb").write(raw)
        if how == "dir":
            path = tmp
        try:
            s = rp.ExternalDataStream.from_uri(path, resolution=3, **kw)
        except Exception:  # noqa: BLE001
            c.check(how != "removed", "badsound.removed", "a good file was refused")
            return
        c.check(how in ("cut", "flip", "removed", "text"), "badsound.accepted", lambda: how + " was accepted")
        if how == "removed":
            os.remove(path)
        try:
            e = s.support
            if 0 < e.sup() < 100:
                L = s.log_signature(rp.RealInterval(0, min(e.sup(), 20)))
                for it in L:
                    v = it.value().to_float()
                    c.check(fmt[0] == "f" or math.isfinite(v), "badsound.value", lambda: "%s" % v)
            c.check(True, "x")
        except Exception:  # noqa: BLE001
            c.check(how != "removed", "badsound.query", "the open file could not be read")


# ---- tensor-valued streams ------------------------------------------------------
def tvs_model(c, tv, init, model, dom, d, kind, cx, depth=0):
    """Compare a tensor-valued stream with init carried by model over dom, then descend into queries."""
    rng = c.rng
    x, y = dom

    def carried(t):
        lies = model.covered(x, t, model.res) if t > x else []
        return ref.clean(ref.mul(init, sm.product(lies, d), d)), lies
    text = "domain [%r,%r)" % dom

    def cmp(key, T, want, lies):
        scale = sm.bound(lies, d, kind) * (1 + float(ref.l1(init))) if kind not in rpx.EXACT else 1.0
        got = rpx.read_ft(T, kind)
        c.check(rpx.same(got, want, kind, scale, 512), key, lambda: text + ": " + rpx.diff(got, want))
    dm = tv.domain()
    c.check((dm.inf(), dm.sup()) == dom, "tvs.domain", lambda: "%s, not %s" % (dm, dom))
    cmp("tvs.initial", c.call("tvs.initial", tv.initial_value), init, [])
    want, lies = carried(y)
    cmp("tvs.terminal", c.call("tvs.terminal", tv.terminal_value), want, lies)
    c.describe(text, nontrivial=any(lies))
    S = c.call("tvs.signature", tv.signature)
    got = rpx.read_ft(S, kind)
    ws = sm.product(lies, d)
    c.check(rpx.same(got, ws, kind, sm.bound(lies, d, kind), 512), "tvs.signature", lambda: text + ": " + rpx.diff(got, ws))
    if depth >= 3:
        return
    g = 2.0 ** -max(min(model.res, 6), -2)
    for _ in range(2):
        lo, hi = sorted(float(sm.flo(rng.uniform(x - 1, y + 1), 3)) if rng.random() < .5 else rng.choice([x, y, x - 1, y + 2, x + g, y - g, (x + y) / 2]) for _ in range(2))
        if lo == hi:
            hi += rng.choice([g, 1.0, .25])
        iv = rp.RealInterval(lo, hi)
        a, b = max(lo, x), min(hi, y)
        if not a < b:
            try:
                tv.query(iv)
            except Exception:  # noqa: BLE001
                c.check(True, "x")
            else:
                c.check(False, "tvs.query.outside", lambda: "%s outside %s was accepted" % (iv, text))
            continue
        sub = c.call("tvs.query", tv.query, iv)
        wi, l2 = carried(a)
        c.describe("query %s" % iv, nontrivial=False)
        tvs_model(c, sub, wi, model, (a, b), d, kind, cx, depth + 1)


def tensors(c):
    """Made from increments and an initial value."""
    rng = c.rng
    kind = rng.choice("RRDP")
    w, d = rng.choice([(1, 2), (2, 2)] if kind == "P" else [(1, 3), (2, 2), (2, 3), (3, 2)])
    cx = rpx.ctx(w, d, kind)
    n = rng.choice([1, 2, 4, 6])
    ts = sm.times(rng, n)
    data = [(t, sm.rand_lie(rng, w, d, kind, rng.random() < .5)) for t in ts]
    res = rng.choice([0, 1, 2, 3, 5])
    s = rp.LieIncrementStream.from_increments([rpx.lie(cx, kind, l, rng.choice("sd")) for _, l in data], indices=ts, ctx=cx, resolution=res)
    model = sm.Model(w, kind, data, s.resolution)
    t = rpx.rtensor(rng, w, d, kind, style="i" if kind in "RP" else "d")
    init = {k: v for k, v in t.items() if v}
    T = rpx.tensor(cx, kind, init, rng.choice("sd"))
    g = 2.0 ** -min(res, 3)
    x, y = sorted([math.floor(rng.uniform(-9, 5) / g) * g, math.ceil(rng.uniform(-5, 9) / g) * g])
    if x == y:
        y += 1
    tv = c.call("tvs", rp.TensorValuedStream, s, T, rp.RealInterval(x, y))
    c.describe("tvs %s w%d d%d res %d initial %s increments %s" % (kind, w, d, res, rpx.show(init, 6), [(t, rpx.show(l, 4)) for t, l in data]), nontrivial=False)
    del s, T
    tvs_model(c, tv, init, model, (float(x), float(y)), d, kind, cx)
    inc = tv.increment_stream()
    c.check(type(inc) is rp.Stream, "tvs.increments", lambda: "%s" % type(inc))


def from_values(c):
    """Made from the values themselves."""
    rng = c.rng
    kind = rng.choice("RRD")
    w, d = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (3, 2)])
    cx = rpx.ctx(w, d, kind)
    n = rng.choice([1, 2, 3, 5, 8])
    g = rng.choice([1, 2, 4, 8])
    ts = [x / g for x in rng.sample(range(-4 * g, 4 * g + 1), n)]
    lies = [sm.rand_lie(rng, w, d, kind, rng.random() < .5) for _ in ts]
    vals, args = {}, []
    for t, l in zip(ts, lies):
        E = ref.exp(ref.l2t(l), d)
        vals[t] = E
        args.append((t, rpx.lie(cx, kind, l, rng.choice("sd")) if rng.random() < .5 else rpx.tensor(cx, kind, E, rng.choice("sd"))))
    kw = {}
    if rng.random() < .5:
        kw["ctx"] = cx
    if rng.random() < .4:
        kw["resolution"] = rng.choice([3, 4, 6])
    tv = c.call("values", rp.TensorValuedStream.from_values, args, **kw)
    ts.sort()
    c.describe("values %s w%d d%d %s at %s of %s" % (kind, w, d, sorted(kw), ts, [rpx.show(l, 4) for l in lies]), nontrivial=n > 1 and any(lies))
    big = 1.0
    if kind == "D":
        big = (2 + sum(float(sum(abs(x) for x in l.values())) for l in lies)) ** (2 * d + 1) * 64

    def cmp(key, T, want, text):
        got = rpx.read_ft(T, kind)
        c.check(rpx.same(got, want, kind, big, 1024), key, lambda: text + ": " + rpx.diff(got, want))
    cmp("values.initial", tv.initial_value(), vals[ts[0]], "initial")
    cmp("values.terminal", tv.terminal_value(), vals[ts[-1]], "terminal")
    dm = tv.domain()
    c.check(dm.inf() == ts[0] and dm.sup() > ts[-1], "values.domain", lambda: "%s of values at %s" % (dm, ts))
    eps = 1 / 64
    for i in range(n):
        j = rng.randint(i, n - 1)
        hi = ts[j + 1] if j + 1 < n else dm.sup()
        sub = c.call("values.query", tv.query, rp.RealInterval(ts[i], hi))
        # the query starts before the increment at its left end
        cmp("values.query.initial", sub.initial_value(), vals[ts[max(i - 1, 0)]], "initial of [%r,%r)" % (ts[i], hi))
        cmp("values.query.terminal", sub.terminal_value(), vals[ts[j]], "terminal of [%r,%r)" % (ts[i], hi))
    bad = rng.choice([[], [(0.0,)], [(0.0, 1.0)], 3, [("x", args[0][1])], None, [(0.0, args[0][1]), (1.0, rp.Lie([1.0], ctx=rpx.ctx(w + 1, d, kind)))]])
    try:
        rp.TensorValuedStream.from_values(bad)
    except Exception:  # noqa: BLE001
        c.check(True, "x")
    else:
        c.check(False, "values.bad", lambda: "%r was accepted" % (bad,))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("functions", functions, 240 * k), ("polygons", polygons, 120 * k), ("broken", broken, 60 * k), ("sound", sound, 200 * k),
            ("badsound", badsound, 120 * k), ("tensors", tensors, 160 * k), ("from_values", from_values, 160 * k)]
