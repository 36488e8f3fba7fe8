"""C24: misuse of the Python interface, under AddressSanitizer and UBSan."""
import copy, datetime, decimal, fractions, gc, math, os, pickle, struct, sys, tempfile, wave
import numpy as np
import roughpy as rp
import ref, rpx

RULE = ("A case builds a pool of live library objects of every kind (contexts, tensors, Lie and shuffle elements, scalars, "
        "polynomials, keys, bases, iterators, intervals, partitions, schemas, streams of every kind) over several shapes and "
        "coefficient types, and makes a run of calls: well-formed calls of every public function, method, operator and "
        "constructor with up to three arguments replaced by hostile values (other library objects, other shapes, huge, negative, "
        "not finite, self-containing and very deep containers, arrays of odd dtypes and layouts, objects whose methods raise, "
        "lie about their length or change the container while it is read, dead iterators, objects never initialised), and "
        "calls of arbitrary attributes found by inspection. The sanitizers watch every access; an exception has to be an "
        "ordinary one; after a refused call the library arguments print as before, reference counts do not grow or shrink over "
        "repetitions of a call, and a fixed computation still gives its result.")
ASSUMPTIONS = ["pickle protocols 0 and 1, which pybind11 documents as unsupported (copyreg makes an object of its common base class), are not used",
               "objects of pybind11 classes are made by their constructors, not by calling __new__ alone",
               "None does not stand in for the object a method is called on (Class.method(None))",
               "requests whose honest answer needs more memory or time than the run has (bases of astronomic size) are not made",
               "ConnectionError-like environment failures do not occur: only files in a scratch directory are opened"]
MIN_CASES = 400


# ---------------------------------------------------------------- hostile values
class Raises:
    def __init__(self, exc=ValueError): self.exc = exc
    def _r(self, *a, **k): raise self.exc("hostile")
    __len__ = __getitem__ = __iter__ = __float__ = __int__ = __index__ = __bool__ = __eq__ = __contains__ = _r
    __array__ = __call__ = __add__ = __mul__ = __radd__ = __rmul__ = keys = items = __str__ = __repr__ = _r
    __hash__ = object.__hash__


class Liar:
    """A sequence whose length and elements do not agree."""
    def __init__(self, n, m): self.n, self.m = n, m
    def __len__(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, slice) or i >= self.m: raise IndexError(i)
        return 1.5
    def __iter__(self): return iter([1.5] * self.m)


class Shrinks:
    """A number which empties a container when it is read."""
    def __init__(self, box): self.box = box
    def _go(self):
        self.box[:] = [] if isinstance(self.box, list) else self.box
        return 2
    def __float__(self): return float(self._go())
    def __index__(self): return self._go()
    def __int__(self): return self._go()
    def __len__(self): return self._go()


class WrongTypes:
    def __float__(self): return "x"
    def __index__(self): return 1.5
    def __len__(self): return -1
    def __iter__(self): return 5
    def __str__(self): return None
    def __hash__(self): return 3
    def __dlpack__(self, **k): return 7
    def __dlpack_device__(self): return "cpu"
    def __array__(self, *a, **k): return "no"


def shrinking(n, pos):
    box = [1.0] * n
    box[pos] = Shrinks(box)
    return box


def shrinking_pairs():
    box = [(0.5, 1.0)] * 6
    inner = [1.0, 2.0, 3.0]
    inner[1] = Shrinks(box)
    box[2] = (1.0, inner)
    return box


def selfref():
    a = [1.0]
    a.append(a)
    return a


def selfdict():
    d = {1: 2.0}
    d[2] = d
    return d


def deep(n, leaf=1.0, kind=list):
    x = leaf
    for _ in range(n):
        x = kind([x]) if kind is not dict else {1: x}
    return x


def odd_array(rng):
    n = rng.choice([0, 1, 2, 3, 7, 15])
    kind = rng.randrange(16)
    base = np.arange(max(n, 1) * 4, dtype="f8").astype(rng.choice(["f8", "f4", "i4", "i8", "u1", "f2", "?", "i2", "u8"]))
    try:
        return [lambda: base[:n], lambda: base[::-1], lambda: base[::3], lambda: base.reshape(-1, 4), lambda: base.reshape(-1, 4).T,
                lambda: base.reshape(2, 2, -1), lambda: np.zeros((0, 3)), lambda: np.zeros((3, 0)), lambda: np.array(1.5),
                lambda: np.array([1, "a", None], dtype=object), lambda: np.array([1.0, 2.0], dtype=">f8"),
                lambda: np.zeros(3, dtype=[("a", "f8"), ("b", "i4")]), lambda: np.array(["a", "bc"]),
                lambda: np.array([1 + 2j, 3]), lambda: np.broadcast_to(np.array([1.5]), (6,)),
                lambda: np.array(["2020-01-01", "2021-01-01"], dtype="datetime64[s]")][kind]()
    except ValueError:
        return base


HOSTILE = [
    lambda r: None, lambda r: True, lambda r: 0, lambda r: -1, lambda r: 1, lambda r: 2 ** 31 - 1, lambda r: 2 ** 31, lambda r: -2 ** 31,
    lambda r: 2 ** 32, lambda r: 2 ** 63 - 1, lambda r: 2 ** 63, lambda r: -2 ** 63, lambda r: 2 ** 64 - 1, lambda r: 2 ** 64, lambda r: 10 ** 40,
    lambda r: -10 ** 40, lambda r: 0.0, lambda r: -0.0, lambda r: float("nan"), lambda r: float("inf"), lambda r: -float("inf"),
    lambda r: 1e308, lambda r: 5e-324, lambda r: -1e19, lambda r: 1 + 2j, lambda r: fractions.Fraction(1, 3), lambda r: fractions.Fraction(10 ** 30, 7),
    lambda r: decimal.Decimal("0.1"), lambda r: decimal.Decimal("nan"), lambda r: "", lambda r: "x", lambda r: "1", lambda r: "a:b", lambda r: "\0",
    lambda r: "\udc80", lambda r: "y" * 5000, lambda r: b"", lambda r: b"bytes", lambda r: bytearray(b"12345678"), lambda r: memoryview(b"12345678"),
    lambda r: [], lambda r: (), lambda r: {}, lambda r: set(), lambda r: [1.0, 2.0], lambda r: [[1.0], [2.0, 3.0]], lambda r: (1, 2), lambda r: {1: 2.0},
    lambda r: {"a": 1}, lambda r: {(1, 2): 3}, lambda r: [None], lambda r: ["a"], lambda r: [(1, 2.0), (1, 2.0)], lambda r: [(1,)], lambda r: [{}],
    lambda r: range(5), lambda r: (x for x in [1.0, 2.0]), lambda r: iter([1.0]), lambda r: selfref(), lambda r: selfdict(), lambda r: deep(50),
    lambda r: deep(r.choice([100, 3000])), lambda r: deep(3000, kind=tuple), lambda r: deep(2000, kind=dict), lambda r: Raises(),
    lambda r: Raises(r.choice([TypeError, KeyError, MemoryError, RuntimeError, OverflowError, StopIteration])), lambda r: Liar(5, 2), lambda r: Liar(2, 5),
    lambda r: Liar(0, 3), lambda r: Liar(10 ** 6, 3), lambda r: WrongTypes(), lambda r: shrinking(6, 1), lambda r: shrinking(40, 0), lambda r: shrinking_pairs(),
    lambda r: [shrinking(6, 2), [1.0] * 6], lambda r: odd_array(r), lambda r: odd_array(r), lambda r: odd_array(r), lambda r: odd_array(r),
    lambda r: np.float32(1.5), lambda r: np.int64(-3), lambda r: np.bool_(True), lambda r: object(), lambda r: type, lambda r: int, lambda r: len,
    lambda r: (lambda *a, **k: None), lambda r: (lambda *a, **k: 1.0), lambda r: (lambda *a, **k: [1.0]), lambda r: Raises,
    lambda r: datetime.datetime(2020, 1, 1), lambda r: datetime.timedelta(1), lambda r: datetime.datetime.min, lambda r: Ellipsis, lambda r: NotImplemented,
    lambda r: slice(None), lambda r: rp, lambda r: rp.DPReal, lambda r: rp.HPReal, lambda r: rp.bfloat16, lambda r: rp.Lie, lambda r: rp.VectorType(1),
    lambda r: rp.ValueChannel,
]

# classes whose objects can be made without running their constructor
# (objects of pybind11 classes get unset memory then, whatever the library does)
RAW = [t for t in (getattr(rp, n) for n in dir(rp) if not n.startswith("_"))
       if isinstance(t, type) and not any(b.__name__ == "pybind11_object" for b in t.__mro__)]


def raw(rng):
    k = rng.choice(RAW)
    try:
        return k.__new__(k)
    except Exception:
        return k


# ---------------------------------------------------------------- live objects
class Pool:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp
        self.cx = [rp.get_context(width=w, depth=d, coeffs=t) for w, d, t in
                   [(rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3, 4]), rng.choice([rp.DPReal, rp.DPReal, rp.SPReal, rp.Rational, rp.RationalPoly]))
                    for _ in range(3)]]
        self.made = []

    def coeff(self, cx):
        r = self.rng
        if cx.ctype is rp.RationalPoly and r.random() < .5:
            return rp.PolynomialScalar({rp.Monomial("x", self.power(1)): r.randint(1, 3)})
        return float(r.randint(-3, 3))

    def of(self, kind):
        """A live object of the kind (or an earlier one)."""
        r = self.rng
        if self.made and r.random() < .25:
            same = [o for k, o in self.made if k == kind]
            if same:
                return r.choice(same)
        try:
            o = getattr(self, "mk_" + kind)()
        except (SystemError, MemoryError):
            raise
        except Exception as e:
            return None if kind in ("rows", "pieces", "values", "ticks") else self.mk_ft()
        self.made.append((kind, o))
        if len(self.made) > 40:
            del self.made[r.randrange(len(self.made))]
        return o

    def ctx(self): return self.rng.choice(self.cx)
    def mk_ctx(self): return self.ctx()
    def vt(self): return self.rng.choice([rp.DenseVector, rp.SparseVector])

    def mk_ft(self, cls=None):
        cx, r = self.ctx(), self.rng
        n = cx.tensor_size()
        return (cls or rp.FreeTensor)([self.coeff(cx) for _ in range(r.choice([1, n, n, max(1, n // 2)]))], ctx=cx, vector_type=self.vt())

    def mk_sh(self): return self.mk_ft(rp.ShuffleTensor)

    def mk_lie(self):
        cx = self.ctx()
        return rp.Lie([self.coeff(cx) for _ in range(self.rng.choice([1, cx.width, cx.lie_size()]))], ctx=cx, vector_type=self.vt())

    def mk_scalar(self):
        for item in self.of(self.rng.choice(["ft", "lie", "sh"])):
            return item.value()
        return rp.FreeTensor([1.0], width=2, depth=2, dtype=rp.DPReal)[0]

    def mk_item(self):
        for item in self.of(self.rng.choice(["ft", "lie", "sh"])):
            return item
        return None

    def mk_iter(self):
        return iter(self.of(self.rng.choice(["ft", "lie", "sh", "tbasis", "lbasis"])))

    def power(self, usual):
        """a power of an indeterminate, now and then one whose square has no representable degree"""
        return usual if self.rng.random() < .9 else self.rng.choice([2**30 - 1, 2**30, 2**31 - 1])
    def mk_mono(self): return rp.Monomial("x%d" % self.rng.randint(0, 3), self.power(self.rng.randint(0, 4)))
    def mk_poly(self): return rp.PolynomialScalar({self.mk_mono(): self.rng.randint(-3, 3) for _ in range(self.rng.randint(0, 3))})
    def mk_tkey(self):
        cx = self.ctx()
        return rp.TensorKey(*[self.rng.randint(1, cx.width) for _ in range(self.rng.randint(0, cx.depth))], width=cx.width, depth=cx.depth)
    def mk_lkey(self):
        cx = self.ctx()
        if cx.width > 1 and cx.depth > 1 and self.rng.random() < .5:
            return rp.LieKey([1, 2], width=cx.width, depth=cx.depth)
        return rp.LieKey(self.rng.randint(1, cx.width), width=cx.width, depth=cx.depth)
    def mk_tbasis(self): return self.ctx().tensor_basis
    def mk_lbasis(self): return self.ctx().lie_basis
    def mk_real(self): return rp.RealInterval(*sorted([float(self.rng.randint(-2, 1)), float(self.rng.randint(1, 3)) - .25]))
    def mk_dyadic(self): return rp.Dyadic(self.rng.randint(-5, 5), self.rng.randint(-2, 4))
    def mk_dyint(self): return rp.DyadicInterval(self.rng.randint(-5, 5), self.rng.randint(-2, 4))
    def mk_part(self): return rp.Partition(rp.RealInterval(0., 2.), [.5, 1., 1.25][:self.rng.randint(0, 3)])
    def mk_iv(self): return self.of(self.rng.choice(["real", "real", "dyint", "part"]))
    def mk_schema(self): return rp.StreamSchema.parse({"a": ("value",), "b": ("increment",)} if self.rng.random() < .5 else [("a", "increment"), ("b", "categorical", {"categories": ["u", "v"]})])
    def mk_helper(self): return rp.TickStreamConstructionHelper()

    def mk_stream(self):
        r, cx = self.rng, self.ctx()
        k = r.choice(["inc", "pa", "tick", "fn", "bm", "ext"])
        if k == "inc":
            return rp.LieIncrementStream.from_increments([[self.coeff(cx) for _ in range(cx.width)] for _ in range(3)], indices=[.1, .6, 1.5], ctx=cx, resolution=r.choice([0, 2, 4]))
        if k == "pa":
            return rp.PiecewiseAbelianStream.construct([(rp.RealInterval(0, 1), rp.Lie([1.0] * cx.width, ctx=cx)), (rp.RealInterval(1, 2), rp.Lie([2.0] * cx.width, ctx=cx))], ctx=cx, resolution=2)
        if k == "tick":
            return rp.TickStream.from_data([(.1, "a", "increment", 1.0), (.6, "b", "value", 2.0), (1.5, "a", "increment", 3.0)], width=2, depth=2, dtype=rp.DPReal, resolution=2)
        if k == "fn":
            return rp.FunctionStream.from_function(lambda t, ctx: rp.Lie([t] * cx.width, ctx=ctx), ctx=cx, resolution=2)
        if k == "bm":
            return rp.BrownianStream.with_generator(width=2, depth=2, dtype=rp.DPReal, support=rp.RealInterval(0, 2), resolution=2)
        return rp.ExternalDataStream.from_uri(self.wav(), channel_types=[rp.ValueChannel] * 2, depth=2, dtype=rp.DPReal)

    def wav(self):
        p = os.path.join(self.tmp, "a.wav")
        if not os.path.exists(p):
            with wave.open(p, "wb") as f:
                f.setnchannels(2); f.setsampwidth(2); f.setframerate(8)
                f.writeframes(struct.pack("<20h", *range(20)))
        return p

    def mk_tvs(self):
        cx = rp.get_context(width=2, depth=2, coeffs=rp.DPReal)
        return rp.TensorValuedStream.from_values([(0., rp.FreeTensor([1.0, 1, 2], ctx=cx).exp() if False else rp.FreeTensor([0., 1, 2], ctx=cx).exp()),
                                                  (1., rp.FreeTensor([0., 2, 1], ctx=cx).exp()), (2., rp.FreeTensor([0., 3, 1], ctx=cx).exp())], ctx=cx)

    # plain arguments
    def mk_num(self): return self.rng.choice([0, 1, 2, -1, .5, 2.0, 3])
    def mk_idx(self): return self.rng.choice([0, 1, 2, 5])
    def mk_deg(self): return self.rng.choice([0, 1, 2])
    def mk_res(self): return self.rng.choice([0, 1, 3, 5])
    def mk_label(self): return self.rng.choice(["a", "b", "c", "u"])
    def mk_path(self): return self.wav() if self.rng.random() < .6 else self.rng.choice([self.tmp, os.path.join(self.tmp, "none.wav"), self.junk()])

    def junk(self):
        p = os.path.join(self.tmp, "junk%d.wav" % self.rng.randint(0, 9))
        data = open(self.wav(), "rb").read()
        b = bytearray(data[:self.rng.randint(0, len(data))])
        for _ in range(self.rng.randint(0, 4)):
            if b:
                b[self.rng.randrange(len(b))] = self.rng.randrange(256)
        open(p, "wb").write(bytes(b))
        return p

    def mk_dtype(self): return self.rng.choice([rp.DPReal, rp.SPReal, rp.Rational, rp.RationalPoly, float, "DPReal", "f8", np.float64, np.float32, int])
    def mk_vt(self): return self.vt()
    def mk_coeffs(self):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 7, 15])
        v = [float(r.randint(-3, 3)) for _ in range(n)]
        return r.choice([lambda: v, lambda: tuple(v), lambda: np.array(v), lambda: [(i, x) for i, x in enumerate(v)], lambda: {i: x for i, x in enumerate(v)},
                         lambda: np.array(v, dtype="f4")[::-1], lambda: memoryview(np.array(v)), lambda: [int(x) for x in v], lambda: odd_array(r),
                         lambda: [self.of("poly"), 1], lambda: {self.of("tkey"): 1.0}, lambda: {self.of("lkey"): 1.0}, lambda: self.of("lie"), lambda: self.of("ft"),
                         lambda: [self.of("scalar")]])()
    def mk_rows(self):
        r = self.rng
        return r.choice([lambda: np.arange(6.).reshape(3, 2), lambda: [[1., 2.], [3., 4.]], lambda: [self.of("lie"), self.of("lie")], lambda: odd_array(r),
                         lambda: [{1: 2.0}, {2: 1.0}], lambda: [[(1, 2.0)], [(2, 1.0)]], lambda: np.arange(6.).reshape(2, 3).T, lambda: [[1], [2, 3]], lambda: []])()
    def mk_indices(self): return self.rng.choice([lambda: [.1, .5, 1.], lambda: np.array([.1, .5, 1.]), lambda: 0, lambda: [1., .5, .2], lambda: "a", lambda: [], lambda: slice(0, 1),
                                                   lambda: [datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 2)]])()
    def mk_ticks(self):
        return self.rng.choice([lambda: [(.1, "a", "increment", 1.0), (.6, "b", "value", 2.0)], lambda: {.1: [("a", "increment", 1.0)], .5: ("b", "value", 1.)},
                                lambda: [(.1, ("a", "categorical", "u")), (.2, ("a", "categorical", "v"))], lambda: [(.1, [("a", "lie", self.of("lie"))])],
                                lambda: {"a": [(.1, "increment", 1.0)]}, lambda: [(.1, "a", 1.0)], lambda: [(.1,)], lambda: {.1: {"a": 1.0}}])()
    def mk_schemadata(self):
        return self.rng.choice([lambda: {"a": ("value",)}, lambda: [("a", "increment")], lambda: [("a", "categorical", {"categories": ["u", "v"]})], lambda: {"a": ("categorical", {"categories": "uv"})},
                                lambda: {"a": ("value", {"lead_lag": 3})}, lambda: {"a": "value"}, lambda: [("a", rp.ChannelType(7))], lambda: [("a", rp.LieChannel)],
                                lambda: {"a": {"type": "value", "lead_lag": True}}, lambda: [{"label": "a", "type": "increment"}], lambda: ["increment", "value"]])()
    def mk_pieces(self):
        return [(rp.RealInterval(i, i + 1), self.of("lie")) for i in range(self.rng.randint(0, 3))]
    def mk_fun(self):
        r = self.rng
        return r.choice([lambda t, ctx: rp.Lie([t] * ctx.width, ctx=ctx), lambda t, ctx: None, lambda t, ctx: 1.0, lambda t: t, lambda t, ctx: 1 / 0, lambda t, ctx: self.of("lie"),
                         lambda *a: self.of("ft")])
    def mk_pred(self):
        r = self.rng
        return r.choice([lambda i: i.sup() - i.inf() < .5, lambda i: True, lambda i: False, lambda i: None, lambda i: 1 / 0, lambda i: Raises(), lambda i: "x"])
    def mk_values(self): return [(float(i), self.of(self.rng.choice(["ft", "ft", "lie"]))) for i in range(self.rng.randint(0, 3))]
    def mk_depth(self): return self.rng.choice([1, 2, 3])
    def mk_lies(self): return [self.of("lie") for _ in range(self.rng.randint(0, 3))]
    def mk_perts(self): return self.rng.choice([lambda: [(self.of("real"), self.of("lie"))], lambda: [], lambda: self.of("lie")])()
    def mk_pts(self): return self.rng.choice([lambda: [.5, 1.], lambda: [], lambda: np.array([.25, .75]), lambda: (9., -3.)])()
    def mk_letters(self): return self.rng.choice([lambda: 1, lambda: [1, 2], lambda: (1, 2), lambda: [1, [1, 2]], lambda: [2, 1], lambda: [[1, 2], [1, 2]], lambda: 7, lambda: [1]])()
    def mk_variants(self): return self.rng.choice([lambda: ["u", "v"], lambda: [], lambda: ["u", "u"], lambda: [1, 2]])()
    def mk_itype(self): return self.rng.choice([rp.IntervalType.Clopen, rp.IntervalType(1)])
    def mk_bool(self): return self.rng.random() < .5
    def mk_any(self): return self.hostile() if self.rng.random() < .6 else self.of(self.rng.choice(KINDS))

    def hostile(self):
        r = self.rng
        q = r.random()
        if q < .25:
            return self.of(r.choice(KINDS))
        if q < .32:
            return raw(r)
        return r.choice(HOSTILE)(r)


KINDS = ["ctx", "ft", "sh", "lie", "scalar", "item", "iter", "mono", "poly", "tkey", "lkey", "tbasis", "lbasis", "real", "dyadic", "dyint", "part",
         "schema", "helper", "stream", "tvs"]

CONF = {"ctx": "ctx", "width": "deg", "depth": "depth", "dtype": "dtype", "coeffs": "dtype", "vector_type": "vt"}


def F(name, fn, args="", kw=None, opt=""):
    return (name, fn, args.split(), dict(kw or {}), opt.split())


def M(kind, names, args=""):
    return [("%s.%s" % (kind, n), n, [kind] + args.split(), {}, []) for n in names.split()]


ALG = "exp" 
CALLS = [
    F("FreeTensor", rp.FreeTensor, "coeffs", {"ctx": "ctx"}), F("FreeTensor", rp.FreeTensor, "coeffs", {"width": "deg", "depth": "depth", "dtype": "dtype"}),
    F("Lie", rp.Lie, "coeffs", {"ctx": "ctx"}), F("Lie", rp.Lie, "coeffs", {"width": "deg", "depth": "depth", "dtype": "dtype"}),
    F("ShuffleTensor", rp.ShuffleTensor, "coeffs", {"ctx": "ctx", "vector_type": "vt"}), F("Lie", rp.Lie, "coeffs", {"ctx": "ctx", "vector_type": "vt", "dtype": "dtype"}),
    F("get_context", rp.get_context, "", {"width": "deg", "depth": "depth", "coeffs": "dtype"}), F("get_context", rp.get_context, "deg depth dtype"),
    F("get_context", rp.get_context, "deg depth dtype", {"backend": "label"}),
    F("Monomial", rp.Monomial, "label idx"), F("Monomial", rp.Monomial, "any"), F("PolynomialScalar", rp.PolynomialScalar, "any"), F("PolynomialScalar", rp.PolynomialScalar, "mono num"),
    F("TensorKey", rp.TensorKey, "letters letters", {"width": "deg", "depth": "depth"}), F("LieKey", rp.LieKey, "letters", {"width": "deg", "depth": "depth"}),
    F("LieKey", rp.LieKey, "letters letters", {"width": "deg", "depth": "depth"}), F("TensorKey", rp.TensorKey, "letters", {"basis": "tbasis"}),
    F("RealInterval", rp.RealInterval, "num num"), F("RealInterval", rp.RealInterval, "num num itype"), F("Dyadic", rp.Dyadic, "idx idx"),
    F("DyadicInterval", rp.DyadicInterval, "idx idx"), F("DyadicInterval", rp.DyadicInterval, "dyadic idx itype"), F("DyadicInterval", rp.DyadicInterval, "dyadic"),
    F("Partition", rp.Partition, "real pts"), F("Partition", rp.Partition, "iv"), F("DateTimeInterval", rp.DateTimeInterval, "any any"),
    F("to_dyadic", rp.DyadicInterval.to_dyadic_intervals, "iv res itype"), F("to_dyadic", rp.DyadicInterval.to_dyadic_intervals, "iv res"),
    F("segment", rp.segment, "iv pred res"),
    F("free_multiply", rp.free_multiply, "ft ft"), F("shuffle_multiply", rp.shuffle_multiply, "sh sh"), F("half_shuffle", rp.half_shuffle_multiply, "sh sh"),
    F("adjoint", rp.adjoint_to_free_multiply, "ft sh"), F("free_multiply", rp.free_multiply, "any any"), F("shuffle_multiply", rp.shuffle_multiply, "any any"),
    F("parse", rp.StreamSchema.parse, "schemadata"), F("from_data", rp.StreamSchema.from_data, "ticks"), F("from_data", rp.StreamSchema.from_data, "rows"),
    F("inc", rp.LieIncrementStream.from_increments, "rows", {"indices": "indices", "ctx": "ctx", "resolution": "res"}),
    F("inc", rp.LieIncrementStream.from_increments, "rows", {"indices": "indices", "width": "deg", "depth": "depth", "dtype": "dtype", "include_param_as_data": "bool"}),
    F("inc", rp.LieIncrementStream.from_increments, "rows", {"ctx": "ctx", "schema": "schema", "support": "iv", "vtype": "vt"}),
    F("tick", rp.TickStream.from_data, "ticks", {"width": "deg", "depth": "depth", "dtype": "dtype", "resolution": "res"}),
    F("tick", rp.TickStream.from_data, "ticks", {"ctx": "ctx", "schema": "schema", "include_param_as_data": "bool"}),
    F("pa", rp.PiecewiseAbelianStream.construct, "pieces", {"ctx": "ctx", "resolution": "res"}),
    F("pa", rp.PiecewiseAbelianStream.construct, "pieces", {"width": "deg", "depth": "depth", "dtype": "dtype"}),
    F("fn", rp.FunctionStream.from_function, "fun", {"ctx": "ctx", "resolution": "res", "support": "iv"}),
    F("bm", rp.BrownianStream.with_generator, "", {"width": "deg", "depth": "depth", "dtype": "dtype", "seed": "idx"}),
    F("bm", rp.BrownianStream.with_generator, "label", {"ctx": "ctx", "seed": "any"}),
    F("ext", rp.ExternalDataStream.from_uri, "path", {"ctx": "ctx", "channel_types": "any", "resolution": "res"}),
    F("ext", rp.ExternalDataStream.from_uri, "path", {"depth": "depth", "dtype": "dtype", "schema": "schema"}), F("ext", rp.ExternalDataStream.from_uri, "path"),
    F("tvs", rp.TensorValuedStream.from_values, "values", {"ctx": "ctx"}), F("tvs", rp.TensorValuedStream.from_values, "values", {"width": "deg", "depth": "depth", "dtype": "dtype", "support": "iv"}),
    F("dyadic_equals", rp.Dyadic.dyadic_equals, "dyadic dyadic"), F("rational_equals", rp.Dyadic.rational_equals, "dyadic dyadic"),
    F("pickle", lambda o: pickle.loads(pickle.dumps(o)), "any"), F("copy", copy.copy, "any"), F("deepcopy", copy.deepcopy, "any"), F("array", np.array, "any"),
    F("str", str, "any"), F("repr", repr, "any"), F("hash", hash, "any"), F("list", lambda o: [x for _, x in zip(range(200), o)], "any"),
    F("setstate", lambda o, s: o.__setstate__(s), "any any"), F("scalartype", lambda t, v: t(v), "dtype any"), F("vt", rp.VectorType, "any"), F("ct", rp.ChannelType, "any"), F("it", rp.IntervalType, "any"),
]
CALLS += [F("op" + n, f, a) for n, f in [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b), ("@", lambda a, b: a @ b),
                                          ("//", lambda a, b: a // b), ("%", lambda a, b: a % b), ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), (">=", lambda a, b: a >= b),
                                          ("+=", lambda a, b: a.__iadd__(b)), ("-=", lambda a, b: a.__isub__(b)), ("*=", lambda a, b: a.__imul__(b)), ("/=", lambda a, b: a.__itruediv__(b)), ("[]", lambda a, b: a[b]),
                                          ("//=", lambda a, b: a.__ifloordiv__(b)), ("%=", lambda a, b: a.__imod__(b)), ("in", lambda a, b: b in a)]
          for a in ("ft ft", "lie lie", "sh sh", "scalar num", "poly poly", "mono mono", "poly mono", "any any", "ft scalar", "lie num", "num scalar", "num poly", "tkey tkey", "dyadic dyadic")]
CALLS += [F("op**", lambda a, b: a ** b, "mono deg"), F("op**", lambda a, b: a ** b, "poly deg"), F("op**=", lambda a, b: a.__ipow__(b), "poly deg"), F("pow3", lambda a, b, c: pow(a, b, c), "poly any any"),
          F("pow3", lambda a, b, c: pow(a, b, c), "mono any any"), F("set", lambda a, b, c: a.__setitem__(b, c), "mono label idx"), F("set", lambda a, b, c: a.__setitem__(b, c), "poly mono num"),
          F("del", lambda a, b: a.__delitem__(b), "mono label"), F("del", lambda a, b: a.__delitem__(b), "poly mono"), F("neg", lambda a: -a, "any"), F("pos", lambda a: +a, "poly"), F("bool", bool, "any"), F("len", len, "any"),
          F("float", float, "any"), F("getitem", lambda a, b: a[b], "ft idx"), F("getitem", lambda a, b: a[b], "ft tkey"), F("getitem", lambda a, b: a[b], "lie lkey"), F("getitem", lambda a, b: a[b], "lie idx"), F("getitem", lambda a, b: a[b], "part idx"),
          F("next", lambda i: [next(i) for _ in range(3)], "iter"), F("dead", lambda k: next(iter(k)).value(), "iter"),
          F("asarray", lambda a, t: np.asarray(a, dtype=t), "ft dtype"), F("asarray", lambda a, t: np.asarray(a, dtype=t), "lie dtype"), F("__array__", lambda a, x, y: a.__array__(x, y), "ft any any"),
          F("item", lambda i: (i.key(), i.value()), "item")]
CALLS += M("ft", "exp log antipode degree size dimension is_zero") + M("ft", "fmexp", "ft") + M("lie", "degree size dimension is_zero") + M("sh", "degree size dimension is_zero")
for k in ("ft", "lie", "sh"):
    CALLS += M(k, "add_scal_mul sub_scal_mul", k + " scalar") + M(k, "add_scal_div sub_scal_div", k + " num") + M(k, "add_mul sub_mul", k + " " + k) + M(k, "mul_smul mul_sdiv", k + " num")
CALLS += (M("ctx", "cbh", "lies") + M("ctx", "cbh", "lie lie") + M("ctx", "compute_signature", "any") + M("ctx", "lie_size tensor_size", "deg") + M("ctx", "lie_size tensor_size zero_lie __enter__")
          + M("ctx", "lie_to_tensor", "lie") + M("ctx", "tensor_to_lie to_logsignature", "ft") + M("ctx", "zero_lie", "vt") + M("ctx", "__exit__", "any any any")
          + M("tbasis", "index_to_key", "idx") + M("tbasis", "key_to_index parents", "tkey") + M("tbasis", "size", "deg") + M("lbasis", "index_to_key", "idx") + M("lbasis", "key_to_index parents", "lkey") + M("lbasis", "size", "deg")
          + M("tbasis", "key_to_index", "any") + M("tkey", "basis degree reverse to_index to_letters") + M("tkey", "split_n", "deg")
          + M("iv", "contains", "num") + M("iv", "contains intersects_with __eq__", "iv") + M("iv", "inf sup included_end excluded_end") + M("dyint", "shrink_left shrink_right dyadic_inf dyadic_sup dyadic_included_end dyadic_excluded_end")
          + M("dyint", "shrink_to_contained_end shrink_to_omitted_end") + M("dyint", "shrink_to_contained_end shrink_left", "idx") + M("dyadic", "rebase", "res") + M("dyadic", "__iadd__", "idx")
          + M("part", "insert_intermediate", "num") + M("part", "merge", "part") + M("part", "refine_midpoints mesh intermediates")
          + M("schema", "insert_increment insert_value", "label") + M("schema", "insert_categorical", "label variants") + M("schema", "insert_categorical", "label") + M("schema", "get_labels width")
          + M("helper", "add_increment add_value", "label num num") + M("helper", "add_categorical", "label label num") + M("helper", "add_time_channel") + M("helper", "add_increment", "num label num")
          + M("stream", "signature log_signature", "iv") + M("stream", "signature log_signature", "iv res") + M("stream", "signature log_signature", "num num res") + M("stream", "signature log_signature")
          + M("stream", "signature_derivative", "perts") + M("stream", "signature_derivative", "real lie res") + M("stream", "signature_derivative", "real lie") + M("stream", "simplify", "part res") + M("stream", "simplify", "part")
          + M("stream", "restrict", "iv") + M("stream", "__getnewargs_ex__") + M("tvs", "signature log_signature query", "iv") + M("tvs", "initial_value terminal_value increment_stream domain") + M("tvs", "signature log_signature", "iv res")
          + M("scalar", "to_float scalar_type"))
CALLS += [F("sig.kw", lambda s, i, **k: s.signature(i, **k), "stream iv", {"resolution": "res", "depth": "depth", "dtype": "dtype"}),
          F("sig.ctx", lambda s, i, **k: s.log_signature(i, **k), "stream iv", {"resolution": "res", "ctx": "ctx"}),
          F("simplify.kw", lambda s, p, **k: s.simplify(p, **k), "stream part", {"resolution": "res", "ctx": "ctx"}),
          F("deriv.kw", lambda s, p, **k: s.signature_derivative(p, **k), "stream perts", {"resolution": "res", "depth": "depth"})]

LIMIT_KW = {"width", "depth"}


def big(v):
    """would ask for something of astronomic size"""
    try:
        return isinstance(v, (int, float, np.number)) and 6 < abs(v)
    except Exception:
        return False


def far(v):
    """a time so far away that a stream would honestly have that many pieces"""
    try:
        return isinstance(v, (int, float, np.number)) and 1000 < abs(v) < math.inf
    except Exception:
        return False


def letters(args):
    """How wide an alphabet a word made of these letters would ask for (a Hall
    basis of that width is built at once, at a cost that is honestly huge)."""
    top = 0
    for a in list(args):
        if isinstance(a, (bytes, bytearray, memoryview)):
            a = list(bytes(a))
        if isinstance(a, str):
            return 10 ** 6
        for v in (a if isinstance(a, (list, tuple, range)) else np.ravel(a) if isinstance(a, np.ndarray) else [a]):
            try:
                top = max(top, int(v))
            except BaseException:
                pass
    return top


def too_big(name, args, kw):
    if ("TensorKey" in name or "LieKey" in name) and not (name.startswith("any.") and "__init__" not in name) and letters(args) > 6:
        return True
    if name == "get_context" and any(big(a) and a < 2 ** 31 for a in args):
        return True
    if name in ("op**", "op**=", "pow3") and any(isinstance(a, (int, np.integer)) and a > 20 for a in args[1:]):
        return True
    if any(isinstance(v, Liar) and v.n > 1000 for v in list(args) + list(kw.values())) and not isinstance(kw.get("ctx"), rp.Context):
        return True                               # the width of the basis to be made
    if ("signature" in name or name.endswith("simplify")) and any(far(v) for v in list(args) + list(kw.values())):
        return True
    if name == "segment" and len(args) > 2 and isinstance(args[2], (int, float)) and args[2] > 12:
        return True
    return False


REACHED = {}


def show(v):
    try:
        return repr(v)[:120]
    except BaseException as e:
        return "<%s>" % type(v).__name__


def libobj(v):
    return type(v).__module__.startswith("roughpy") or type(v).__name__ in ("Context", "Monomial", "PolynomialScalar", "Stream", "TensorValuedStream")


def printed(v):
    try:
        return str(v)
    except Exception as e:
        return "raises %s" % type(e).__name__


def canary(c):
    cx = rp.get_context(width=2, depth=3, coeffs=rp.DPReal)
    x = rp.Lie([1.0, 2.0, .5], ctx=cx)
    y = rp.Lie([0.0, -1.0], ctx=cx)
    got = rpx.read_lie(cx.cbh([x, y]), "D")
    want = rpx.read_lie(cx.tensor_to_lie((cx.lie_to_tensor(x).exp() * cx.lie_to_tensor(y).exp()).log()), "D")
    c.check(rpx.same(got, want, "D", 4.0), "library.unusable", lambda: rpx.diff(got, want))
    s = rp.LieIncrementStream.from_increments([[1., 2.], [3., 4.]], indices=[0., .5], ctx=cx)
    v = rpx.read_lie(s.log_signature(rp.RealInterval(0, 1), 3), "D")
    c.check(len(v) > 2 and all(math.isfinite(z) for z in v.values()), "library.unusable", lambda: str(v))


def attempt(c, pool, name, fn, args, kw, text):
    """One call: whatever happens has to be a result or an ordinary exception."""
    before = [printed(a) for a in args if libobj(a)]
    try:
        r = fn(*args, **kw)
        ok = True
    except (SystemError, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
        c.check(False, "exception.%s@%s" % (type(e).__name__, name), "%s: %s" % (text, e))
        return None
    except RecursionError:
        return None
    except Exception as e:
        ok = False
        r = None
        msg = None
        try:
            msg = str(e)
        except Exception:
            pass
    c.evals += 1
    REACHED.setdefault(name, [0, 0])[0 if ok else 1] += 1
    if not ok:
        after = [printed(a) for a in args if libobj(a)]
        if not name.startswith(("helper", "item", "iter", "next", "schema")):
            c.check(before == after, "refused.changed@" + name, lambda: "%s: %s became %s" % (text, before, after))
    else:
        printed(r)
    return r


def counts(objs):
    return [sys.getrefcount(o) for o in objs]


def repeat(c, name, fn, args, kw, text):
    """References gained or lost by repeating a call whose result is dropped."""
    if args and name.endswith("=") and not libobj(args[0]):
        return                                     # a list really does grow
    objs = list(args) + list(kw.values())
    objs = [o for o in objs if libobj(o) or isinstance(o, (list, dict, tuple, np.ndarray, float, str))]

    def go():
        try:
            fn(*args, **kw)
        except Exception:
            pass
    go()
    gc.collect()
    a = counts(objs)
    for _ in range(3):
        go()
    b = counts(objs)
    for o, x, y in zip(objs, a, b):
        if x > 10 ** 6:
            continue
        c.check(abs(y - x) < 3, "references@" + name, lambda: "%s: %d references to %s became %d after 3 calls" % (text, x, show(o), y))


def one_call(c, pool):
    rng = pool.rng
    name, fn, args, kw, _ = rng.choice(CALLS)
    a = [pool.of(k) for k in args]
    k = {n: pool.of(v) for n, v in kw.items() if rng.random() < .9}
    q = rng.random()
    for _ in range(0 if q < .25 else 1 if q < .7 else 2 if q < .9 else 3):
        slots = len(a) + len(k)
        if not slots:
            break
        i = rng.randrange(slots)
        h = pool.hostile()
        if i < len(a):
            a[i] = h
        else:
            n = list(k)[i - len(a)]
            if n in LIMIT_KW and big(h) and 0 < h < 2 ** 31:
                h = -h
            k[n] = h
    if rng.random() < .1 and a:
        a = a[:-1]
    elif rng.random() < .05:
        a = a + [pool.hostile()]
    if rng.random() < .05:
        k[rng.choice(["ctx", "depth", "resolution", "bogus", "dtype", "schema"])] = pool.hostile() if rng.random() < .5 else pool.of(rng.choice(KINDS))
        for n in LIMIT_KW & set(k):
            if big(k[n]):
                k[n] = 2
    if too_big(name, a, k):
        return None
    text = "%s(%s)" % (name, ", ".join([show(x) for x in a] + ["%s=%s" % (n, show(v)) for n, v in k.items()]))
    f = fn
    if isinstance(fn, str):
        if not a:
            return None
        f = getattr(a[0], fn, None)
        m = getattr(getattr(rp, type(pool.of(args[0])).__name__, None), fn, None)
        if f is None or rng.random() < .2:
            if a[0] is None:
                return None
            f = m                                  # called unbound, with whatever came first
        else:
            a = a[1:]
        if not callable(f):
            return None
    return name, f, a, k, text


def any_attribute(c, pool):
    """An attribute found by inspection, with hostile arguments."""
    rng = pool.rng
    o = pool.of(rng.choice(KINDS)) if rng.random() < .7 else raw(rng)
    names = [n for n in dir(type(o)) if n not in ("__new__", "__init_subclass__", "__subclasshook__", "__class__", "__del__", "__reduce__", "__reduce_ex__", "__sizeof__", "__getattribute__", "__delattr__", "__setattr__", "__dir__")]
    n = rng.choice(names)
    if rng.random() < .05:
        return "set." + n, lambda: setattr(o, n, pool.hostile()), [], {}, "setattr(%s, %s)" % (show(o), n)
    a = [pool.hostile() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    def f(*args):
        v = getattr(o, n)
        return v(*args) if callable(v) else v
    if any(big(x) for x in a) and n in ("__init__", "__pow__", "__ipow__", "__rpow__"):
        return None
    if (n == "__init__" or "signature" in n or n == "simplify") and too_big("any.%s.%s" % (type(o).__name__, n), a, {}):
        return None
    return "any.%s.%s" % (type(o).__name__, n), f, a, {}, "%s.%s(%s)" % (show(o), n, ", ".join(show(x) for x in a))


def misuse(c):
    rng = c.rng
    trace = os.environ.get("VP_TRACE")
    with tempfile.TemporaryDirectory(prefix="vp_c24_") as tmp:
        pool = Pool(rng, tmp)
        log = []
        for _ in range(40):
            t = one_call(c, pool) if rng.random() < .8 else any_attribute(c, pool)
            if t is None:
                continue
            name, f, a, k, text = t
            if trace:
                print(text[:600], file=open(trace, "a"), flush=True)
            log.append(name)
            r = attempt(c, pool, name, f, a, k, text)
            if rng.random() < .15 and not name.startswith("helper") and not any(type(x).__name__ in ("generator", "list_iterator") for x in a):
                repeat(c, name, f, a, k, text)
            for kind, cls in (("ft", rp.FreeTensor), ("lie", rp.Lie), ("sh", rp.ShuffleTensor), ("schema", rp.StreamSchema), ("part", rp.Partition)):
                if isinstance(r, cls):
                    pool.made.append((kind, r))
        c.describe(" ".join(log), nontrivial=True)
        del pool
        gc.collect()
        canary(c)


def families(tier):
    return [("misuse", misuse, 640 if tier == "quick" else 12000)]
