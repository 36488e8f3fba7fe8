"""C23 pickling and archives."""
import copy, copyreg, json, math, os, pickle, random, select, shutil, signal, subprocess, sys, tempfile, time
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("values of every serialisable type (dyadics, intervals and partitions of both conventions, tensors and Lie elements of every coefficient type, storage kind and "
        "context, monomials, polynomials, increment and Brownian streams with queries before and after) pickled with protocols 2 to 5, copied and deep-copied, in this "
        "process and in a fresh one with its own working folder; every reading of the restored value compared with the original's, bit for bit; archives cut at every "
        "length or with bytes changed, loaded in child processes under the sanitizers; non-trivial: a value that is not zero, a damaged archive")
ASSUMPTIONS = ["types and stream kinds that do not support pickling raise and are left at that",
               "a changed byte that still spells a value may be accepted as that value; it must not crash",
               "a byte that stands for a truth value and is neither 0 nor 1 is read by the archive library as it is; such reports of the sanitizer are put aside",
               "an archive that asks for too much memory or time (a huge context) is stopped by the check, not by the library",
               "protocols 0 and 1 are not supported by pybind11 types"]
MIN_CASES = 300
SCALE = 2


# ---- making and reading values -------------------------------------------------
def rfloat(rng):
    return rng.choice([0.0, 1.0, -1.0, .5, 1 / 3, rng.uniform(-9, 9), rng.randint(-9, 9) / 8, 1e-300, -1e300, math.nextafter(1, 2), float(2 ** 60)])


def ritype(rng):
    return rp.IntervalType(rng.choice([0, 1]))


def make_interval(c):
    rng = c.rng
    k = rng.choice(["dyadic", "di", "di", "real", "real", "part"])
    it = ritype(rng)
    m = rng.choice([0, 1, -1, rng.randint(-100, 100), 2 ** 62, -2 ** 62, rng.randint(-2 ** 40, 2 ** 40)])
    n = rng.choice([0, 1, 5, -3, rng.randint(-20, 50)])
    if k == "dyadic":
        return rp.Dyadic(m, n)
    if k == "di":
        if n < 0 or abs(m) > 2 ** 50:
            m, n = m % 2 ** 20, abs(n)
        return rp.DyadicInterval(rp.Dyadic(m, n), it)
    a, b = sorted([rfloat(rng), rfloat(rng)])
    if a == b:
        b = a + 1 if abs(a) < 1e15 else a * 2 if a > 0 else a / 2
    a, b = min(a, b), max(a, b)
    if k == "real":
        return rp.RealInterval(a, b, it)
    a, b = max(a, -100.0), min(b, 100.0)
    if a >= b:
        a, b = 0.0, 1.0
    return rp.Partition(rp.RealInterval(a, b, it), [x for x in (rng.uniform(a, b) for _ in range(rng.randint(0, 6))) if a < x < b])


def read_interval(o):
    if type(o) is rp.Dyadic:
        return (o.k, o.n, float(o))
    r = [type(o).__name__, o.interval_type if not callable(o.interval_type) else o.interval_type(), o.inf(), o.sup(), str(o)]
    if isinstance(o, rp.DyadicInterval):
        d = [o.dyadic_included_end(), o.dyadic_excluded_end(), o.dyadic_inf(), o.dyadic_sup()]
        r += [(x.k, x.n) for x in d]
    if isinstance(o, rp.Partition):
        r += [list(o.intermediates()), len(o), o.mesh()]
    return r


CLS = [rp.FreeTensor, rp.ShuffleTensor, rp.Lie]


def make_algebra(c, small=False):
    rng = c.rng
    kind = rng.choice("DSRP")
    w, d = rng.choice([(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (5, 1)] + ([] if small or kind == "P" else [(2, 5), (4, 3), (3, 4)]))
    cx = rpx.ctx(w, d, kind)
    cls = rng.choice(CLS)
    vt = rng.choice("sd")
    if cls is rp.Lie:
        o = rpx.lie(cx, kind, rpx.rlie(rng, w, d, kind), vt)
    else:
        o = rpx.tensor(cx, kind, {k: v for k, v in rpx.rtensor(rng, w, d, kind).items() if v}, vt, cls)
    if rng.random() < .15:
        o = o - o
    elif rng.random() < .1:
        o = cls(ctx=cx)
    return o, kind


def read_algebra(o, kind):
    cx = o.context
    items = [(str(it.key()), str(it.value())) for it in o]
    vals = rpx.read_lie(o, kind) if isinstance(o, rp.Lie) else rpx.read_ft(o, kind)
    return [type(o).__name__, cx.width, cx.depth, str(cx.ctype), str(o.storage_type), o.size(), o.degree(), o.is_zero(), str(o), items, sorted(vals.items(), key=repr)]


def make_poly(c):
    rng = c.rng

    def mono():
        m = rp.Monomial(rng.choice("xyzab") + str(rng.randint(0, 2 ** rng.choice([2, 8, 40]))))
        for _ in range(rng.randint(0, 3)):
            m = m * rp.Monomial(rng.choice("xyzab") + str(rng.randint(0, 9)))
        return m ** rng.randint(1, 4)
    if rng.random() < .4:
        return mono()
    p = rp.PolynomialScalar({rp.Monomial(): rng.randint(-5, 5)})
    for _ in range(rng.randint(0, 5)):
        q = rp.PolynomialScalar({mono(): rng.randint(-9, 9)})
        p = p + q if rng.random() < .7 else p * q
    return p * rng.choice([1, 1, 10 ** 30, -3])


WAYS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [("pickle%d" % p, (lambda o, p=p: pickle.loads(pickle.dumps(o, p)))) for p in (2, 3, 4, 5)]


def ways(c):
    return c.rng.sample(WAYS, 3)


def same_reading(c, key, how, a, b):
    return c.check(a == b, key, lambda: "%s: %s, not %s" % (how, str(b)[:600], str(a)[:600]))


def intervals(c):
    pool = [make_interval(c) for _ in range(4)]
    c.describe([str(o) for o in pool])
    for o in pool:
        want = read_interval(o)
        for how, f in ways(c):
            r = c.call("intervals", f, o)
            c.check(type(r) is type(o), "intervals.type", lambda: "%s gives %s" % (how, type(r)))
            same_reading(c, "intervals.value", how, want, read_interval(r))
            if type(o) is not rp.Dyadic:
                c.check(r == o, "intervals.equal", lambda: "%s of %s" % (how, o))
        same_reading(c, "intervals.original", "original", want, read_interval(o))
    r = c.call("intervals", pickle.loads, pickle.dumps(pool))
    same_reading(c, "intervals.list", "list", [read_interval(o) for o in pool], [read_interval(o) for o in r])


def algebras(c):
    for _ in range(3):
        o, kind = make_algebra(c)
        want = read_algebra(o, kind)
        c.describe("%s %s" % (want[:5], want[8][:150]), nontrivial=not o.is_zero())
        for how, f in ways(c):
            r = c.call("algebras", f, o)
            c.check(type(r) is type(o), "algebras.type", lambda: "%s gives %s" % (how, type(r)))
            c.check(r.context == o.context, "algebras.context", lambda: "%s: %s" % (how, r.context))
            same_reading(c, "algebras.value", how, want, read_algebra(r, kind))
            c.check(r == o and o == r, "algebras.equal", lambda: "%s of %s" % (how, o))
            # they compute alike and do not share storage
            z = r - o
            c.check(z.is_zero() or not any(float(it.value().to_float()) for it in z) if kind != "P" else z.is_zero(), "algebras.difference", lambda: "%s: %s" % (how, z))
            s = o * o if kind != "P" else o + o
            t = r * o if kind != "P" else r + o
            same_reading(c, "algebras.product", how, read_algebra(s, kind), read_algebra(t, kind))
            r += r
            r *= rpx.scalar(kind, F(3)) if kind in "R" else 3
            same_reading(c, "algebras.original", how, want, read_algebra(o, kind))


def polys(c):
    for _ in range(3):
        o = make_poly(c)
        c.describe(str(o)[:150])
        for how, f in ways(c):
            r = c.call("polys", f, o)
            c.check(type(r) is type(o), "polys.type", lambda: "%s gives %s" % (how, type(r)))
            c.check(r == o and str(r) == str(o), "polys.value", lambda: "%s of %s gives %s" % (how, o, r))
            if type(o) is rp.PolynomialScalar:
                q = r + r
                c.check(str(q) == str(o + o) and r == o, "polys.sum", lambda: "%s: %s" % (how, q))


# ---- streams ------------------------------------------------------------------
def make_stream(c):
    rng = c.rng
    w, d = rng.choice([(1, 2), (2, 2), (2, 3), (3, 2)])
    m = (kinds.bm if rng.random() < .25 else kinds.inc)(c, w, d, rng.choice("DSRP" if w < 3 else "DSR"))
    s = m.s
    if rng.random() < .3:
        a, b = sorted(rng.uniform(m.span[0] - 1, m.span[1] + 1) for _ in range(2))
        s = s.restrict(rp.RealInterval(round(a * 8) / 8, round(b * 8) / 8 + .125))
    return s, m


def queries(rng, m, n):
    out = []
    for _ in range(n):
        a, b = sm.rquery(rng, [m.span[0], m.span[1]], span=4)
        if a == b:
            b += .5
        a, b = max(a, -40.0), min(b, 40.0)
        if a >= b:
            a, b = -1.0, 1.0
        out.append((rng.choice(["signature", "log_signature"]), a, b, rng.choice([None, max(m.res, 0), max(m.res, 0), 1, 3])))
    return out


def ask(s, q):
    f, a, b, r = q
    x = getattr(s, f)(rp.RealInterval(a, b), **({} if r is None else dict(resolution=r)))
    return str(x), [(str(i.key()), repr(i.value().to_float()) if s.dtype in (rp.DPReal, rp.SPReal) else str(i.value())) for i in x]


def about(s):
    return [s.width, str(s.ctx), str(s.dtype), s.support.inf(), s.support.sup(), str(s.resolution), str(s)]


def other_stream(c):
    """Another stream that goes through the same working folder."""
    rng = c.rng
    cx = rpx.ctx(2, 2, "D")
    s = rp.LieIncrementStream.from_increments([rp.Lie([rng.uniform(-1, 1), 1.0], ctx=cx) for _ in range(4)], indices=[0.0, 1.0, 2.0, 3.0], ctx=cx, resolution=rng.choice([0, 1, 2]))
    s.signature(rp.RealInterval(0, 4), resolution=2)
    return s


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="vp_pkl_")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def streams(c):
    rng = c.rng
    with scratch() as tmp:
        s, m = make_stream(c)
        info = about(s)
        c.describe("%s w%d d%d %s span %s support %s %s" % (m.kind, m.w, m.d, m.num, m.span, s.support, m.text[:200]))
        first = queries(rng, m, rng.choice([0, 2, 4]))
        for q in first:
            ask(s, q)
        blob = c.call("streams.dumps", pickle.dumps, s, rng.choice([2, 3, 4, 5]))
        blobs = [blob]
        extra = [other_stream(c) for _ in range(rng.randint(0, 2))]
        for e in extra:
            blobs.append(pickle.dumps(e))
        how = rng.choice(["same", "same", "copy", "deepcopy", "moved", "nocache"])
        if how == "nocache":
            shutil.rmtree(os.path.join(tmp, ".stream_cache"), ignore_errors=True)
        elif how == "moved":
            os.mkdir("elsewhere")
            os.chdir("elsewhere")
        if how in ("copy", "deepcopy"):
            r = c.call("streams.copy", getattr(copy, how), s)
        else:
            r = c.call("streams.loads", pickle.loads, blob)
        same_reading(c, "streams.about", how, info, about(r))
        r2 = c.call("streams.loads", pickle.loads, blob) if how == "same" else None
        late = first + queries(rng, m, 4)
        rng.shuffle(late)
        if m.kind == "bm":
            # what was already drawn is kept, and both draw alike from here on
            for q in late:
                x, y = ask(s, q), ask(r, q)
                same_reading(c, "streams.brownian", "%s %s" % (how, q), x, y)
            if r2 is not None:
                for q in late:
                    y = ask(r2, q)
                a = ask(r2, late[-1])
                same_reading(c, "streams.brownian.again", how, y, a)
        else:
            fresh = m.rebuild()
            for q in late:
                x, y = ask(s, q), ask(r, q)
                same_reading(c, "streams.answer", "%s %s" % (how, q), x, y)
                if r2 is not None:
                    same_reading(c, "streams.answer.second", "%s %s" % (how, q), x, ask(r2, q))
            if s.support.inf() == fresh.support.inf() and s.support.sup() == fresh.support.sup():
                for q in late:
                    same_reading(c, "streams.answer.fresh", "%s %s" % (how, q), ask(fresh, q), ask(r, q))
        for e, b in zip(extra, blobs[1:]):
            f = c.call("streams.loads", pickle.loads, b)
            q = ("signature", 0.0, 4.0, 2)
            same_reading(c, "streams.others", how, ask(e, q), ask(f, q))
        # restoring a restored one
        again = c.call("streams.again", pickle.loads, c.call("streams.again", pickle.dumps, r))
        same_reading(c, "streams.again.about", how, info, about(again))
        q = late[0] if late else ("signature", 0.0, 1.0, None)
        same_reading(c, "streams.again.answer", how, ask(r, q), ask(again, q))


CHILD = r"""
import sys, json, pickle, os
sys.path[:0] = json.loads(sys.argv[1])
import roughpy as rp, c23
out = []
for path, kind, qs in json.load(open(sys.argv[2])):
    try:
        o = pickle.load(open(path, "rb"))
        if kind == "i":
            r = c23.read_interval(o)
        elif kind == "s":
            r = [c23.about(o), [c23.ask(o, q) for q in qs]]
        elif kind == "p":
            r = [type(o).__name__, str(o)]
        else:
            r = c23.read_algebra(o, kind)
        out.append(repr(r))
    except Exception as e:
        out.append("EXC " + repr(e))
json.dump(out, open(sys.argv[3], "w"))
"""


def fresh_process(c):
    """Pickled here, restored in a new interpreter in another folder."""
    rng = c.rng
    jobs, want = [], []
    with scratch() as tmp:
        def put(o, kind, qs, reading):
            p = os.path.join(tmp, "%d.pkl" % len(jobs))
            pickle.dump(o, open(p, "wb"), rng.choice([2, 3, 4, 5]))
            jobs.append((p, kind, qs))
            want.append(repr(reading))
        for _ in range(12):
            o = make_interval(c)
            put(o, "i", [], read_interval(o))
            o, k = make_algebra(c)
            put(o, k, [], read_algebra(o, k))
            o = make_poly(c)
            put(o, "p", [], [type(o).__name__, str(o)])
            s, m = make_stream(c)
            qs = queries(rng, m, 3)
            first = [ask(s, q) for q in qs[:rng.randint(0, 3)]]
            if m.kind == "bm":
                qs = qs[:len(first)] or qs[:1]
                first = [ask(s, q) for q in qs]
                first = [ask(s, q) for q in qs]
            put(s, "s", qs, [about(s), [ask(s, q) for q in qs]])
        c.describe("%d objects: %s" % (len(jobs), [w[:60] for w in want[:8]]))
        json.dump(jobs, open("jobs.json", "w"))
        cwd = rng.choice([tmp, "/"])
        env = dict(os.environ)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, json.dumps(sys.path), os.path.join(tmp, "jobs.json"), os.path.join(tmp, "out.json")],
                           cwd=cwd, env=env, capture_output=True, text=True, timeout=80)
        if not c.check(p.returncode == 0, "fresh.crash", lambda: p.stderr[-1500:]):
            return
        got = json.load(open("out.json"))
        for (path, kind, qs), w, g in zip(jobs, want, got):
            c.check(w == g, "fresh." + {"i": "interval", "s": "stream", "p": "poly"}.get(kind, "algebra"), lambda: "%s restored in a fresh process as %s" % (w[:500], g[:500]))


# ---- damage --------------------------------------------------------------------
def archive(o):
    """(bytes, bytes -> restored object)"""
    red = o.__reduce_ex__(2)
    f, args, state = red[0], red[1], red[2] if len(red) > 2 else None
    if f is copyreg.__newobj_ex__:
        cls, a, kw = args
        (name, data), = kw.items()

        def load(b):
            return cls.__new__(cls, *a, **{name: bytearray(b)})
        return bytes(data), load
    cls = args[0]
    data = state[0] if isinstance(state, tuple) else state

    def load(b):
        x = cls.__new__(cls, *args[1:])
        x.__setstate__((bytearray(b),) if isinstance(state, tuple) else bytearray(b))
        return x
    return bytes(data), load


def exercise(o):
    str(o)
    if isinstance(o, rp.Stream):
        x = o.support
        if abs(x.inf()) < 50 and abs(x.sup()) < 50:
            str(o.signature(rp.RealInterval(x.inf(), min(x.inf() + 1, x.sup())), resolution=1))
        str(o.ctx), o.width, str(o.dtype)
        return
    if isinstance(o, (rp.Monomial, rp.PolynomialScalar)):
        str(o), o == o
        return
    if o.context is not None and o.context.width < 6 and o.context.depth < 6:
        for it in o:
            str(it.key()), str(it.value())
        str(o + o), o == o, o.size(), o.degree(), str(o.storage_type)


def run_damaged(c, load, blobs, what, tolerate_accept):
    """Load each blob in a child process; report what it did with every one."""
    i, deaths = 0, 0
    outcomes = {"raised": 0, "accepted": 0, "memory": 0, "time": 0}
    while i < len(blobs) and deaths < 6:
        r, w = os.pipe()
        err = tempfile.TemporaryFile()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.dup2(err.fileno(), 2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                for j in range(i, len(blobs)):
                    signal.alarm(6)
                    try:
                        o = load(blobs[j])
                    except Exception:  # noqa: BLE001
                        os.write(w, b"r")
                        continue
                    try:
                        exercise(o)
                    except Exception:  # noqa: BLE001
                        pass
                    os.write(w, b"a")
                    del o
                signal.alarm(0)
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            data += x
        os.close(r)
        _, st = os.waitpid(pid, 0)
        for k, ch in enumerate(data):
            outcomes["accepted" if ch == 97 else "raised"] += 1
            c.check(ch != 97 or tolerate_accept, "damaged.accepted", lambda: "%s %d of %d bytes was accepted" % (what, len(blobs[i + k]), len(blobs[-1]) + 1))
        i += len(data)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            break
        if i >= len(blobs):
            break
        err.seek(0)
        text = err.read().decode(errors="replace")
        deaths += 1
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            outcomes["time"] += 1
        elif "out-of-memory" in text or "allocation-size-too-big" in text or "exceeds maximum supported size" in text:
            outcomes["memory"] += 1
        else:
            import re
            if "not a valid value for type 'bool'" in text:
                outcomes["bool"] = outcomes.get("bool", 0) + 1
                i += 1
                deaths -= 1
                continue
            frame = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) \S*/src/(\S+?):", text)
            kind = re.search(r"(AddressSanitizer: \S+|runtime error: [^\n]*|terminate called[^\n]*)", text)
            key = "damaged.crash@" + (frame.group(2).rsplit("/", 1)[-1] if frame else "status%d" % st)
            c.check(False, key, lambda: "%s %s: %s\n%s" % (what, blobs[i].hex(), kind.group(1) if kind else st, text[-1200:] if not frame else frame.group(0)))
        i += 1
    return outcomes


def damage(c):
    rng = c.rng
    with scratch():
        k = rng.choice(["alg", "alg", "alg", "poly", "stream"])
        if k == "alg":
            o, _ = make_algebra(c, small=True)
        elif k == "poly":
            o = make_poly(c)
        else:
            o, m = make_stream(c)
            if rng.random() < .5:
                for q in queries(rng, m, 2):
                    ask(o, q)
        data, load = archive(o)
        text = "%s %s" % (type(o).__name__, str(o)[:80])
        c.describe("%s archive of %d bytes" % (text, len(data)))
        n = len(data)
        cuts = list(range(n)) if n <= 200 else sorted(set(rng.sample(range(n), 120)) | set(range(0, 60)) | {n - 1, n - 2, n - 4, n - 8})
        got = run_damaged(c, load, [data[:x] for x in cuts], text + " cut to", False)
        flips = []
        for _ in range(24):
            b = bytearray(data)
            for _ in range(rng.choice([1, 1, 2, 4])):
                p = rng.randrange(n)
                b[p] = rng.choice([0, 1, 255, 128, 127, b[p] ^ (1 << rng.randrange(8)), rng.randrange(256)])
            flips.append(bytes(b))
        for _ in range(4):
            p, q = sorted(rng.sample(range(n + 1), 2))
            flips.append(data[:p] + data[q:] + data[p:q][:rng.randint(0, 8)])
            flips.append(bytes(rng.randrange(256) for _ in range(rng.randint(0, 100))))
        f = run_damaged(c, load, flips, text + " with bytes changed", True)
        c.describe("cuts %s changes %s" % (got, f))


def wrong_state(c):
    """States of another type or shape."""
    rng = c.rng
    pool = [make_interval(c), make_algebra(c, True)[0], make_poly(c), make_stream(c)[0]]
    o = rng.choice(pool)
    others = [archive(x)[0] for x in (make_algebra(c, True)[0], make_algebra(c, True)[0], make_poly(c))]
    states = [(), (1,), (1, 2), ((),), [], None, 3, "x", b"", bytearray(), (b"",), ("",), (bytearray(),), (None,), (1, 2, 3), (1, 2, 3, 4), ({},)] + [(bytearray(x),) for x in others] + [bytearray(x) for x in others]
    cls = type(o)

    def load(i):
        if isinstance(o, rp.Stream):
            st = states[i]
            return cls.__new__(cls, serialized_stream=st[0] if isinstance(st, tuple) and st else st)
        x = cls.__new__(cls)
        x.__setstate__(states[i])
        return x

    class B(bytes):
        pass
    c.describe("%s %s" % (cls.__name__, str(o)[:60]))
    if isinstance(o, (rp.FreeTensor, rp.ShuffleTensor, rp.Lie, rp.Monomial, rp.PolynomialScalar, rp.Stream)):
        blobs = [bytes([i]) for i in range(len(states))]
        run_damaged(c, lambda b: load(b[0]), blobs, cls.__name__ + " state number", True)
        return
    for i in range(len(states)):
        try:
            x = load(i)
        except Exception:  # noqa: BLE001
            c.check(True, "x")
        else:
            try:
                str(x)
            except Exception:  # noqa: BLE001
                pass
            c.check(True, "x")


def refused(c):
    """Kinds of stream and other objects that do not support pickling say so."""
    rng = c.rng
    kind = rng.choice([kinds.tick, kinds.pa, kinds.fn, kinds.ext])
    m = kind(c, 2, 2, rng.choice("DR"))
    c.describe("%s" % m.kind)
    with scratch():
        try:
            b = pickle.dumps(m.s)
        except Exception:  # noqa: BLE001
            c.check(True, "x")
        else:
            r = c.call("refused.loads", pickle.loads, b)
            q = ("signature", float(math.floor(m.span[0])), float(math.ceil(m.span[1]) + 1), None)
            same_reading(c, "refused.answer", m.kind, ask(m.s, q), ask(r, q))
        cx = rpx.ctx(2, 2, "D")
        for o in (cx, rp.TensorKey(1, width=2, depth=2), rp.FreeTensor([1.0, 2.0], ctx=cx)[1], cx.tensor_basis):
            try:
                b = pickle.dumps(o)
            except Exception:  # noqa: BLE001
                c.check(True, "x")
            else:
                r = c.call("refused.loads", pickle.loads, b)
                c.check(r == o, "refused.value", lambda: "%s became %s" % (o, r))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("intervals", intervals, 40 * k), ("algebras", algebras, 60 * k), ("polys", polys, 30 * k), ("streams", streams, 60 * k), ("fresh_process", fresh_process, 4 * k),
            ("damage", damage, 30 * k), ("wrong_state", wrong_state, 15 * k), ("refused", refused, 8 * k)]
