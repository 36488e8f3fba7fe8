"""C25: shared contexts, tables and streams used by many threads, in a C++ harness and from Python."""
import faulthandler, math, os, sys, threading
import roughpy as rp
import ref, rpx, sm, kinds

RULE = ("A case is a random shape, coefficient type, set of shared elements and streams, and a script of operations for two to "
        "eight threads. It runs in fresh processes, so that every table is cold: once with the threads' scripts one after the "
        "other, once at the same time with random pauses. ThreadSanitizer watches every memory access (any race report is a "
        "violation), a time limit notices deadlock, and every answer is compared with the one given alone. The steps that "
        "overlapped another thread's step are counted. From Python (where queries release the interpreter lock), threads ask "
        "one stream of every kind with random switch intervals, and every answer is compared bit for bit with a fresh stream's.")
ASSUMPTIONS = ["the answers of a Brownian stream depend on the order of the queries, so they are only compared with each other",
               "ThreadSanitizer sees the accesses of the interleavings that ran, and orders them by happens-before rather than by time"]
MIN_CASES = 600


def programs(tier):
    m = 1 if tier == "quick" else 12
    return [("threads", "tsan",
             [("tables", 400 * m), ("lookup", 150 * m), ("queries", 250 * m), ("brownian", 100 * m), ("cold", 200 * m), ("mixed", 300 * m)], 4)]


def plan(c, m, k):
    """k requests: (how, arguments)"""
    rng = c.rng
    a, b = m.span
    out = []
    for _ in range(k):
        x, y = sorted([rng.choice([a, math.floor(a) + 0.0, rng.uniform(a, b)]), rng.choice([b, math.ceil(b) + 0.0, rng.uniform(a, b)])])
        if x == y:
            y = x + 1
        r = m.res
        while (y - x) * 2.0 ** r > 64:
            r -= 1
        iv = rp.RealInterval(x, y)
        how = rng.choice(["signature", "log_signature", "signature", "log_signature", "other", "derivative", "simplify", "restrict"])
        if m.dynamic and how == "other":
            how = "signature"
        if how == "other" and (m.num == "P" or m.d == 1):
            how = "log_signature"
        if how == "derivative" and (m.num == "P" or (y - x) * 2.0 ** r > 32):
            how = "log_signature"
        out.append((how, iv, min(r, m.res) if not m.dynamic else m.res, [rng.randint(-3, 3) for _ in range(m.w)]))
    return out


def ask(m, s, q):
    how, iv, r, v = q
    if m.dynamic:
        iv = rp.RealInterval(max(iv.inf(), m.span[0]), min(iv.sup(), m.span[1]))
    if how == "signature":
        return rpx.read_ft(s.signature(iv, resolution=r), m.num)
    if how == "log_signature":
        return rpx.read_lie(s.log_signature(iv, resolution=r), m.num)
    if how == "other":
        return rpx.read_ft(s.signature(iv, resolution=r, depth=m.d - 1), m.num)
    if how == "derivative":
        return rpx.read_ft(s.signature_derivative(iv, rp.Lie([float(x) for x in v], ctx=m.cx), r), m.num)
    if how == "simplify":
        mid = (iv.inf() + iv.sup()) / 2
        t = s.simplify(rp.Partition(iv, [mid]), resolution=r, ctx=m.cx)
        return rpx.read_lie(t.log_signature(iv, resolution=max(r, 1)), m.num)
    t = s.restrict(rp.RealInterval(iv.inf(), (iv.inf() + iv.sup()) / 2))
    return rpx.read_lie(t.log_signature(iv, resolution=r), m.num)


def python_threads(c):
    rng = c.rng
    m = kinds.pick(c, simple=True, which=rng.choice([kinds.inc, kinds.tick, kinds.pa, kinds.fn, kinds.fn, kinds.bm, kinds.ext, kinds.ext]))
    if m.dynamic:
        m.res = rng.choice([1, 2])
    nt = rng.choice([2, 3, 4, 6])
    scripts = [plan(c, m, rng.randint(2, 8)) for _ in range(nt)]
    if rng.random() < .5:                        # the same requests in every thread
        scripts = [rng.sample(scripts[0], len(scripts[0])) for _ in range(nt)]
    c.describe("%s %s w%d d%d %d threads of %s %s" % (m.kind, m.num, m.w, m.d, nt, [len(s) for s in scripts], m.text[:120]), nontrivial=False)
    out = [[None] * len(s) for s in scripts]
    bar = threading.Barrier(nt)
    clock = [0]
    seen = set()

    def run(t):
        bar.wait()
        for i, q in enumerate(scripts[t]):
            clock[0] += 1
            n = clock[0]
            try:
                out[t][i] = ask(m, m.s, q)
            except Exception as e:  # noqa: BLE001
                out[t][i] = e
            if clock[0] != n:
                seen.add((t, i))

    old = sys.getswitchinterval()
    # a deadlock may hold the interpreter lock: end the process with every thread's stack
    faulthandler.dump_traceback_later(90, exit=True, file=sys.stderr)
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 1e-3]))
    try:
        ts = [threading.Thread(target=run, args=(t,)) for t in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        faulthandler.cancel_dump_traceback_later()
    if seen:
        c.describe("%d requests overlapped another" % len(seen))
    fresh = m.rebuild() if m.rebuild else m.s
    same = {}
    for t, s in enumerate(scripts):
        for i, q in enumerate(s):
            got = out[t][i]
            try:
                want = ask(m, fresh, q)
            except Exception as e:  # noqa: BLE001
                want = e
            if isinstance(want, Exception):
                c.check(isinstance(got, Exception), "py.raises", lambda: "%s: %s, alone %r" % (q, got, want))
                continue
            c.check(not isinstance(got, Exception) and got == want, "py." + q[0],
                    lambda: "thread %d request %d %s: %s alone %s" % (t, i, (q[0], str(q[1]), q[2]), str(got)[:400], str(want)[:400]))


def families(tier):
    m = 1 if tier == "quick" else 12
    return [("python_threads", python_threads, 700 * m)]
