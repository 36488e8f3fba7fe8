"""C10 data ingestion: any container or memory layout means the nested list of its values."""
import array, collections, math
from fractions import Fraction as F
import numpy as np
import roughpy as rp
import ref, rpx

RULE = ("vectors and matrices of values put in lists, tuples, ranges, deques, dicts, key/value pairs, arrays of every number dtype and memory "
        "layout (reversed, strided, transposed, Fortran, broadcast, zero-length, offset in a larger block of sentinels), memoryviews, "
        "array.array, bytes and DLPack-only providers; elements and streams built from them compared with the reference made of the values "
        "taken out one by one; malformed data must raise; non-trivial: at least one value is not zero")
ASSUMPTIONS = ["float values given to single-precision elements may be off by one unit in the last place of a float32",
               "an input kind the library does not support (bool, big-endian, numpy scalars, ...) may be rejected with an exception instead of converted"]
MIN_CASES = 400
SCALE = 8
INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLTS = ["float16", "float32", "float64"]
SENT = 77


class DL:
    """Only DLPack, no buffer interface."""

    def __init__(self, a):
        self.a = a

    def __dlpack__(self, **k):
        return self.a.__dlpack__(**k)

    def __dlpack_device__(self):
        return self.a.__dlpack_device__()


def values(rng, dt, n, kind):
    big = rng.random() < 0.2
    out = []
    for _ in range(n):
        if dt in FLTS:
            v = rng.choice([0.0, 1.5, -2.25, 0.125, 3.0, -0.5, rng.randint(-64, 64) / 16])
            if big and dt == "float64":
                v = rng.choice([1e300, -1e-300, rng.uniform(-1e6, 1e6), 2.0 ** 60 + 2 ** 20, 0.1]) if kind != "S" else rng.uniform(-9, 9)
        else:
            ii = np.iinfo(dt)
            v = rng.randint(max(-9, ii.min), 9)
            if big:
                v = rng.choice([ii.min, ii.max, ii.max - 1, rng.randint(ii.min, ii.max)])
        out.append(v)
    return out


def layout(rng, arr):
    """An array equal to arr in another memory layout, lying in a block of sentinels."""
    how = rng.choice(["plain", "rev", "step", "offset", "fortran", "bcast", "negrow", "swap", "copyF", "stepboth", "mid"])
    nd = arr.ndim
    dt = arr.dtype
    base = None
    if how == "plain" or arr.size == 0:
        base = arr.copy()
        v = base
        how = "plain"
    elif how == "rev":
        base = np.ascontiguousarray(arr[(slice(None, None, -1),) * nd])
        v = base[(slice(None, None, -1),) * nd]
    elif how in ("step", "stepboth"):
        k = rng.choice([2, 3])
        shape = tuple(s * k if (i == nd - 1 or how == "stepboth") else s for i, s in enumerate(arr.shape))
        base = np.full(shape, SENT, dt)
        off = rng.randrange(k)
        sl = tuple(slice(off, None, k) if (i == nd - 1 or how == "stepboth") else slice(None) for i in range(nd))
        v = base[sl]
        v[...] = arr
    elif how in ("offset", "mid"):
        pad = [(rng.randint(1, 3), rng.randint(1, 3)) for _ in range(nd)]
        base = np.full(tuple(s + a + b for s, (a, b) in zip(arr.shape, pad)), SENT, dt)
        v = base[tuple(slice(a, a + s) for s, (a, b) in zip(arr.shape, pad))]
        v[...] = arr
    elif how == "fortran" or how == "copyF":
        base = np.asfortranarray(arr)
        v = base
    elif how == "negrow":
        base = np.full(tuple(2 * s for s in arr.shape), SENT, dt)
        v = base[tuple(slice(2 * s - 1, None, -2) if i == 0 else slice(0, 2 * s, 2) for i, s in enumerate(arr.shape))]
        v[...] = arr
    elif how == "swap":
        base = np.ascontiguousarray(arr.T)
        v = base.T
    else:   # broadcast along the first axis: every row alike, or one value
        row = arr[:1].copy()
        base = row
        v = np.broadcast_to(row, arr.shape)
        v = np.lib.stride_tricks.as_strided(row, shape=arr.shape, strides=(0,) + row.strides[1:])
    return how, base, v


def convert(x, kind):
    """Expected coefficient."""
    if kind in "RP":
        return F(x)
    if kind == "D":
        return F(float(x))
    return F(float(np.float32(x)))


def agree(got, want, kind, ok_nan=False):
    """Coefficient dicts; float kinds may be one unit in the last place off."""
    for k in set(got) | set(want):
        a, b = got.get(k, F(0)), want.get(k, F(0))
        if a == b:
            continue
        if kind in "RP" or isinstance(a, float) or isinstance(b, float):
            return False
        if abs(a - b) > abs(b) * F(rpx.EPS[kind]):
            return False
    return True


def build_1d(c, kind, cx, dim, cls):
    """(text, object to pass, list of values by position or {pos: v}, source check)"""
    rng = c.rng
    n = rng.choice([dim, dim, rng.randint(1, dim), 1, 0])
    form = rng.choice(["list", "tuple", "deque", "range", "np", "np", "np", "np", "dl", "dl", "mv", "arr", "bytes", "dict", "pairs", "keys", "mixed"])
    dt = rng.choice(INTS + FLTS)
    if kind == "S" and dt in ("int64", "uint64", "int32", "uint32"):
        dt = "int16"
    if form in ("dict", "pairs", "keys", "list", "tuple", "deque", "mixed", "range", "bytes") and n == 0:
        n = 1
    if form in ("list", "tuple", "deque"):
        dt = rng.choice(["int64", "float64"]) if kind != "S" else "float32"
        v = values(rng, dt, n, kind)
        cont = {"list": list, "tuple": tuple, "deque": collections.deque}[form]
        if form == "tuple" and n == 2 and isinstance(v[0], int):
            form, cont = "list", list         # a pair is a key and a value
        return form, cont(v), v, None
    if form == "mixed":
        v, obj = [], []
        for _ in range(n):
            s = rng.random()
            if s < .4:
                x = rng.randint(-9, 9); obj.append(x)
            elif s < .7:
                x = rng.randint(-32, 32) / 8; obj.append(x)
            else:
                x = F(rng.randint(-9, 9)); obj.append(rpx.scalar(kind, x))
            v.append(x)
        return form, obj, v, None
    if form == "range":
        a, s = rng.randint(-5, 5), rng.choice([1, 2, -1])
        r = range(a, a + s * n, s)
        return form, r, list(r), None
    if form == "bytes":
        b = bytes(rng.randint(0, 255) for _ in range(n))
        obj = rng.choice([b, bytearray(b), memoryview(b)])
        return "bytes/" + type(obj).__name__, obj, list(b), (lambda: bytes(obj) == b)
    if form in ("dict", "pairs", "keys"):
        pos = rng.sample(range(dim), n) if dim >= n else list(range(dim))
        v = values(rng, "float32" if kind == "S" else rng.choice(["int32", "float64"]), len(pos), kind)
        v = [x if x else 1 for x in v]
        off = 1 if cls is rp.Lie else 0
        key = lambda p: p + off
        if form == "keys":
            if cls is rp.Lie:
                lb = list(cx.lie_basis)
                key = lambda p: lb[p]
            else:
                tb = list(cx.tensor_basis)
                key = lambda p: tb[p]
        its = [(key(p), x) for p, x in zip(pos, v)]
        if form == "dict" or (form == "keys" and rng.random() < .5):
            return form + "/dict", dict(its), dict(zip(pos, v)), None
        return form + "/pairs", rng.choice([list, tuple])(its) if len(its) != 2 else its, dict(zip(pos, v)), None
    if form == "arr":
        code = rng.choice("bBhHiIlLqQfd")
        it = array.array(code).itemsize
        d2 = {"f": "float32", "d": "float64"}.get(code) or ("int%d" % (8 * it) if code.islower() else "uint%d" % (8 * it))
        if kind == "S" and it == 8:
            code, d2 = "h", "int16"
        v = values(rng, d2, n, kind)
        obj = array.array(code, v)
        snap = obj.tobytes()
        return "array.array " + code, obj, list(obj), (lambda: obj.tobytes() == snap)
    v = values(rng, dt, n, kind)
    arr = np.array(v, dtype=dt)
    how, base, view = layout(rng, arr)
    vals = [x for x in view.tolist()]
    snap = base.tobytes()
    ok = lambda: base.tobytes() == snap
    if form == "np":
        return "np %s %s" % (dt, how), view, vals, ok
    if form == "dl":
        return "dlpack %s %s" % (dt, how), DL(view), vals, ok
    if dt == "float16":
        view = np.array(v, dtype="float32"); vals = view.tolist(); how = "plain"
    return "memoryview %s %s" % (view.dtype, how), memoryview(view), vals, ok


def flat(c):
    rng = c.rng
    kind = rng.choice("RRPDDS")
    w, d = rng.choice([(1, 3), (2, 2), (2, 4), (3, 2), (3, 3), (5, 2), (4, 1)])
    cls = rng.choice([rp.FreeTensor, rp.FreeTensor, rp.ShuffleTensor, rp.Lie, rp.Lie])
    cx = rpx.ctx(w, d, kind)
    dim = cx.lie_size(d) if cls is rp.Lie else cx.tensor_size(d)
    form, obj, vals, same = build_1d(c, kind, cx, dim, cls)
    vt = rng.choice([None, None, "s", "d"])
    c.describe("%s %s w%d d%d vt=%s from %s of %s" % (cls.__name__, kind, w, d, vt, form, vals if not isinstance(vals, list) else vals[:12]),
               any((vals.values() if isinstance(vals, dict) else vals)))
    kw = {} if vt is None else dict(vector_type=rpx.VT[vt])
    fam = form.split()[0].split("/")[0]
    if "float16" in form:
        try:
            x = cls(obj, ctx=cx, **kw)
        except Exception:  # noqa: BLE001
            c.check(True, "ingest.half")
            return
    else:
        x = c.call("ingest." + fam, cls, obj, ctx=cx, **kw)
    items = vals.items() if isinstance(vals, dict) else enumerate(vals)
    if cls is rp.Lie:
        names = rpx.hall_list(w, d)
    else:
        names = [tuple(k.to_letters()) for k in cx.tensor_basis]
    want = {names[i]: convert(v, kind) for i, v in items if v}
    want = {k: v for k, v in want.items() if v}
    if kind == "P":
        want = {k: ref.Poly.const(v) for k, v in want.items()}
    read = rpx.read_lie if cls is rp.Lie else rpx.read_ft
    got = read(x, kind)
    ok = got == want if kind == "P" else agree(got, want, kind)
    c.check(ok, "ingest.%s.value" % fam, lambda: rpx.diff(got, want))
    if same is not None:
        c.check(same(), "ingest.source", "the source data was changed")
        # the element must not depend on the source afterwards
        a = obj.a if isinstance(obj, DL) else obj
        if isinstance(a, (np.ndarray, array.array, bytearray)) and len(a):
            if isinstance(a, np.ndarray):
                a[...] = 55
            else:
                for i in range(len(a)):
                    a[i] = 55
            c.check(read(x, kind) == got, "ingest.alias", lambda: "writing to the source changed the element: " + rpx.diff(read(x, kind), got))
    del obj
    if rng.random() < .3:
        c.check(read(x + x, kind).keys() == got.keys(), "ingest.use", "x + x has other keys than x")


def matrix(c):
    """Streams from two-dimensional data."""
    rng = c.rng
    kind = rng.choice("RRDDS")
    w = rng.choice([1, 2, 3, 4])
    n = rng.choice([1, 2, 3, 5, 9])
    cx = rpx.ctx(w, 2, kind)
    form = rng.choice(["np", "np", "np", "dl", "lists", "tuples", "arrays", "mixedrows", "lies", "pairs", "dicts", "np1", "mv"])
    dt = rng.choice(INTS + FLTS) if kind != "S" else rng.choice(["int8", "uint8", "int16", "float32", "float16"])
    same = None
    kw = {}
    if form in ("np", "dl", "mv"):
        arr = np.array(values(rng, dt, n * w, kind), dtype=dt).reshape(n, w)
        how, base, view = layout(rng, arr)
        rows = view.tolist()
        snap = base.tobytes()
        same = lambda: base.tobytes() == snap
        obj = view if form == "np" else DL(view)
        if form == "mv":
            if dt == "float16":
                form = "np"
                obj = view
            else:
                obj = memoryview(view)
        form += " %s %s" % (dt, how)
    elif form == "np1":
        arr = np.array(values(rng, dt, w, kind), dtype=dt)
        how, base, view = layout(rng, arr)
        obj, rows = view, [view.tolist()]
    else:
        rows = [values(rng, dt, w, kind) for _ in range(n)]
        if form in ("lists", "pairs", "dicts"):         # Python integers have to fit 64 bits
            rows = [[x if x < 2 ** 63 else x - 2 ** 63 for x in r] for r in rows]
        if form == "lies":
            rows = [[x if abs(x) < 1e9 and abs(x) > 1e-9 else 3 for x in r] for r in rows]
        if form == "lists":
            rows = [[float(x) if dt in FLTS else x for x in r[:rng.randint(1, w)]] for r in rows]
            obj = [list(r) for r in rows]
        elif form == "tuples":
            rows = [[float(x) for x in r] for r in rows]
            obj = tuple(list(r) for r in rows)
        elif form in ("arrays", "mixedrows"):
            obj = []
            for i in range(n):
                r = np.array(rows[i], dtype=dt)
                how, base, view = layout(rng, r)
                rows[i] = view.tolist()
                if form == "mixedrows" and rng.random() < .4:
                    rows[i] = [x if x < 2 ** 63 else x - 2 ** 63 for x in rows[i]]     # fits 64 bits
                    obj.append([x for x in rows[i]])
                elif form == "mixedrows" and rng.random() < .4:
                    obj.append(DL(view))
                else:
                    obj.append(view)
        elif form == "lies":
            obj = []
            for i in range(n):
                vt = rng.choice("sd")
                obj.append(rpx.lie(cx, kind, {(j + 1): convert(x, kind) for j, x in enumerate(rows[i]) if x}, vt))
        elif form in ("pairs", "dicts"):
            obj = []
            rr = []
            for r in rows:
                ks = rng.sample(range(1, w + 1), rng.randint(1, w))
                its = [(k, (float(r[k - 1]) if dt in FLTS else r[k - 1]) or 1) for k in ks]
                row = [0] * w
                for k, x in its:
                    row[k - 1] = x
                rr.append(row)
                obj.append(dict(its) if form == "dicts" else its)
            rows = rr
    c.describe("stream %s w%d from %s: %s" % (kind, w, form, rows[:6]), any(any(r) for r in rows))
    fam = form.split()[0]
    if dt == "float16":
        try:
            s = rp.LieIncrementStream.from_increments(obj, ctx=cx, **kw)
        except Exception:  # noqa: BLE001
            c.check(True, "stream.half")
            return
    else:
        s = c.call("stream." + fam, rp.LieIncrementStream.from_increments, obj, ctx=cx, **kw)
    c.check(s.width == w, "stream.width", lambda: "width %s for %d columns" % (s.width, w))
    for i, r in enumerate(rows):
        l = s.log_signature(rp.RealInterval(i, i + 1))
        got = rpx.read_lie(l, kind)
        want = {j + 1: convert(x, kind) for j, x in enumerate(r) if x}
        want = {k: v for k, v in want.items() if v}
        c.check(agree(got, want, kind), "stream.%s.value" % fam, lambda: "row %d: %s" % (i, rpx.diff(got, want)))
    c.check(not rpx.read_lie(s.log_signature(rp.RealInterval(len(rows), len(rows) + 4)), kind), "stream.extra", "data after the last row")
    if same is not None:
        c.check(same(), "stream.source", "the source data was changed")


def timed(c):
    """Times given with the rows, beside them, or in one of the columns."""
    rng = c.rng
    kind = rng.choice("RDD")
    w = rng.choice([2, 3])
    n = rng.choice([1, 2, 4, 6])
    cx = rpx.ctx(w, 2, kind)
    ts = sorted(rng.sample(range(0, 40), n))
    times = [t / 4 for t in ts]
    rows = [[float(x) for x in values(rng, "float32", w, kind)] for _ in range(n)]
    form = rng.choice(["indices", "column", "columnF", "npindices", "strided"])
    # A resolution fine enough to tell the times apart is stated.
    kw = dict(resolution=4, ctx=cx)
    if form == "indices":
        obj = rows
        kw["indices"] = rng.choice([list, tuple])(times)
    elif form in ("npindices", "strided"):
        how, base, view = layout(rng, np.array(rows))
        obj, rows = view, view.tolist()
        ti = np.array(times)
        kw["indices"] = ti if form == "npindices" else np.repeat(ti, 3)[::3]
    else:
        # the column holds the steps from one time to the next, and stays in the data
        col = rng.randrange(w)
        for i, r in enumerate(rows):
            r[col] = times[i] - (times[i - 1] if i else 0.0)
        obj = np.array(rows)
        if form == "columnF":
            obj = np.asfortranarray(obj)
        if rng.random() < .4:
            obj = [list(r) for r in rows]
        kw["indices"] = col
    c.describe("timed %s %s w%d %s %s" % (form, kind, w, times, rows), any(any(r) for r in rows))
    s = c.call("timed." + form, rp.LieIncrementStream.from_increments, obj, **kw)
    for t, r in zip(times, rows):
        got = rpx.read_lie(s.log_signature(rp.RealInterval(t, t + 0.25), 4), kind)
        want = {j + 1: convert(x, kind) for j, x in enumerate(r) if x}
        want = {k: v for k, v in want.items() if v}
        c.check(agree(got, want, kind), "timed.%s.value" % form, lambda: "at %s: %s" % (t, rpx.diff(got, want)))


def bad_data(rng):
    a = np.arange(6.0)
    return [("str", "abc"), ("strs", ["a", "b"]), ("nested", [[1.0], [2.0, 3.0]]), ("deep", [[[[1.0]]]]), ("complex", a.astype(complex)),
            ("objects", np.array([object()] * 3)), ("None items", [None, 1.0]), ("sets", [{1}, {2}]), ("mixed pairs", [(1, 2.0), 3.0]),
            ("mixed pairs2", [3.0, (1, 2.0)]), ("str keys", {"a": 1.0}), ("neg key", {-1: 1.0}), ("object", object()), ("type", float),
            ("fn", bad_data), ("str value", {1: "x"}), ("complex item", [1j]), ("struct", np.zeros(3, "f8,i4")), ("dates", np.zeros(3, "M8[s]")),
            ("unicode", np.array(["a", "bc"])), ("3-d", np.zeros((2, 2, 2))), ("triples", [(1, 2.0, 3.0)]), ("empty pair", [()]), ("pair of str", [("a", 1.0)]),
            ("huge int", [2 ** 200]), ("bad dlpack", type("X", (), {"__dlpack__": lambda s, **k: 3, "__dlpack_device__": lambda s: (1, 0)})()),
            ("raising dlpack", type("X", (), {"__dlpack__": lambda s, **k: 1 / 0, "__dlpack_device__": lambda s: (1, 0)})()),
            ("gen", (x for x in [1.0])), ("nan key", {float("nan"): [1.0]})]


def malformed(c):
    rng = c.rng
    kind = rng.choice("RPDS")
    cx = rpx.ctx(2, 2, kind)
    cls = rng.choice([rp.FreeTensor, rp.ShuffleTensor, rp.Lie])
    name, data = rng.choice(bad_data(rng))
    stream = rng.random() < 0.4 and name not in ("nested", "triples", "nan key", "deep", "mixed pairs", "mixed pairs2", "3-d")
    c.describe("malformed %s to %s %s" % (name, "stream" if stream else cls.__name__, kind))
    if name == "huge int" and kind in "RPDS":
        # refused or exact, never another value
        try:
            x = cls(data, ctx=cx)
        except Exception:  # noqa: BLE001
            c.check(True, "bad.huge")
            return
        v = list(x)[0].value() if len(list(x)) else None
        c.check(v is not None and str(v) not in ("0", "-1") and (kind in "DS" or rpx.value(v, kind) == 2 ** 200), "bad.huge", lambda: "2**200 became %s" % v)
        return
    try:
        if stream:
            x = rp.LieIncrementStream.from_increments(data, ctx=cx)
        else:
            x = cls(data, ctx=cx)
    except Exception:  # noqa: BLE001
        c.check(True, "bad")
    else:
        c.fail("bad.accepted", "%s was accepted as %s" % (name, x))
    # non-finite numbers have no exact value
    if kind in "RP" and not stream:
        v = rng.choice([float("nan"), float("inf"), -float("inf")])
        src = rng.choice([[1.0, v], np.array([1.0, v]), {1: v}, np.array([v], dtype="float32")])
        try:
            x = cls(src, ctx=cx)
        except Exception:  # noqa: BLE001
            c.check(True, "bad")
        else:
            c.fail("bad.nonfinite", "%s became the exact value %s" % (v, x))
    ok = cls([1, 2], ctx=cx)
    c.check(len((rpx.read_lie if cls is rp.Lie else rpx.read_ft)(ok, kind)) == 2, "bad.after", lambda: "the library is not usable after the rejection: %s" % ok)


def inferred(c):
    """Without a stated coefficient type every value survives in the type that is chosen."""
    rng = c.rng
    form = rng.choice(["np", "np", "dl", "list", "rational", "poly"])
    dt = rng.choice(["float32", "float64", "float16", "int8", "int16", "int32", "uint8", "uint16", "uint32"])
    n = rng.randint(1, 6)
    v = values(rng, dt, n, "D")
    if form in ("np", "dl"):
        how, base, view = layout(rng, np.array(v, dtype=dt))
        vals = view.tolist()
        obj = view if form == "np" else DL(view)
    elif form == "list":
        vals = v
        obj = list(v)
    else:
        vals = [rng.randint(-9, 9) or 1 for _ in range(n)]
        obj = [rpx.scalar("R" if form == "rational" else "P", x) for x in vals]
        if rng.random() < .3:
            obj[rng.randrange(n)] = rng.randint(1, 5)
            vals = [x if isinstance(x, int) else F(str(x).strip("{} ()")) for x in obj]
    c.describe("inferred %s %s %s" % (form, dt, vals), any(vals))
    if dt == "float16":
        dt = "float32"
        vals = [float(np.float16(x)) for x in vals] if form in ("np", "dl") else vals
        if form in ("np", "dl"):
            obj = np.array(vals, dtype=dt)
    t = c.call("inferred." + form, rp.FreeTensor, obj, width=5, depth=2)
    st = str(t.dtype) if hasattr(t, "dtype") else ""
    kind = "P" if form == "poly" else "R" if form == "rational" else "D"
    got = []
    for i in range(n):
        x = t[i]
        got.append(rpx.value(x, kind) if kind != "P" else rpx.parse_poly(str(x)))
    want = [F(x) if kind != "P" else ref.Poly.const(F(x)) for x in vals]
    c.check(got == want, "inferred.%s.value" % form, lambda: "got %s want %s (%s)" % (got, want, st))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("flat", flat, 900 * k), ("matrix", matrix, 500 * k), ("timed", timed, 250 * k), ("malformed", malformed, 250 * k), ("inferred", inferred, 200 * k)]
