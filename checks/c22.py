"""C22 interval, partition and segmentation operations agree with sets of real numbers."""
import math, pickle
from fractions import Fraction as F
import roughpy as rp
from iv import CLOPEN, OPENCL, TYPES, INF, Set, subset, meets, rpoint, dfloor, dceil, is_clopen

RULE = ("random pools of real, dyadic and partition intervals with shared and one-ulp-apart end points, both conventions: point membership, "
        "containment, intersection and equality of every pair; random edit histories of partitions (construction, insertion, refinement, merging, "
        "pickling) compared with a sorted set of points after every step; segmentation of intervals by predicates \"inside one of these "
        "intervals\" compared with the grid cells inside the set; non-trivial: two distinct intervals, an edited partition, a set with a cell; a native harness repeats this for both conventions and mixtures of them")
ASSUMPTIONS = ["containment of empty intervals is not judged", "predicates are monotone: true on every subinterval of an interval they accept",
               "search depths up to 10"]
MIN_CASES = 300
SCALE = 4


def points(c):
    rng = c.rng
    base = [rpoint(rng) for _ in range(3)]
    base += [math.nextafter(x, rng.choice([-INF, INF])) for x in base[:2]]
    pool = []
    for _ in range(6):
        a, b = rng.choice(base), rng.choice(base)
        t = rng.choice(TYPES)
        kind = rng.choice(["real", "real", "copy", "part"])
        o = rp.RealInterval(a, b, t) if rng.random() < 0.7 or t != CLOPEN else rp.RealInterval(a, b)
        if kind == "copy":
            o = rng.choice([rp.RealInterval, lambda z: pickle.loads(pickle.dumps(z))])(o)
        elif kind == "part":
            o = rp.Partition(o, [(a + b) / 2])
        s = Set(F(min(a, b)), F(max(a, b)), t)
        pool.append((o, s))
    c.describe("points %s" % ([str(s) for o, s in pool],))
    for o, s in pool:
        inc, exc = (s.lo, s.hi) if is_clopen(s.t) else (s.hi, s.lo)
        for name, want in (("inf", s.lo), ("sup", s.hi), ("included_end", inc), ("excluded_end", exc)):
            got = getattr(o, name)()
            c.check(F(got) == want, "interval." + name, lambda: "%s of %s %s is %r" % (name, type(o).__name__, s, got))
        c.check(o.interval_type == s.t, "interval.type", lambda: "%s has type %s" % (s, o.interval_type))
        for p in base + [float(s.lo), float(s.hi), math.nextafter(float(s.lo), INF), math.nextafter(float(s.hi), -INF), rpoint(rng), (float(s.lo) + float(s.hi)) / 2]:
            c.check(o.contains(p) == s.has(F(p)), "interval.contains_point", lambda: "%s %s contains %r gave %s" % (type(o).__name__, s, p, o.contains(p)))
        for q, t in pool:
            if t.lo < t.hi and s.lo < s.hi:
                c.check(o.contains(q) == subset(t, s), "interval.contains", lambda: "%s.contains(%s) gave %s" % (s, t, o.contains(q)))
            if s.lo == s.hi or t.lo == t.hi:
                c.check(not o.intersects_with(q), "interval.intersects.empty", lambda: "%s and %s" % (s, t))
            else:
                c.check(o.intersects_with(q) == meets(s, t), "interval.intersects", lambda: "%s.intersects_with(%s) gave %s" % (s, t, o.intersects_with(q)))
            if isinstance(o, rp.Partition) and isinstance(q, rp.Partition):
                continue
            same = (s.lo, s.hi) == (t.lo, t.hi) and s.t == t.t
            c.check((o == q) == same, "interval.eq", lambda: "%s == %s gave %s" % (s, t, o == q))


class PModel:
    def __init__(self, lo, hi, mids, t):
        self.lo, self.hi, self.t = lo, hi, t
        self.mids = sorted({m for m in mids if lo < m < hi})

    def cells(self):
        e = [self.lo] + self.mids + [self.hi]
        return list(zip(e, e[1:]))

    def __eq__(self, o):
        return (self.lo, self.hi, self.t, self.mids) == (o.lo, o.hi, o.t, o.mids)


def partition_ok(c, p, m, what):
    got = list(p.intermediates())
    if not c.check(got == m.mids, "partition.intermediates", lambda: "%s want %s after %s" % (got, m.mids, what)):
        return False
    c.check(p.inf() == m.lo and p.sup() == m.hi and p.interval_type == m.t, "partition.ends", lambda: "%s after %s" % (p, what))
    cells = m.cells()
    if not c.check(len(p) == len(cells), "partition.len", lambda: "%d cells, want %d, after %s" % (len(p), len(cells), what)):
        return False
    for i, (a, b) in enumerate(cells):
        q = p[i]
        c.check(q.inf() == a and q.sup() == b and q.interval_type == m.t, "partition.cell", lambda: "cell %d is %s, want %s,%s, after %s" % (i, q, a, b, what))
    mesh = min(b - a for a, b in cells)
    c.check(p.mesh() == mesh, "partition.mesh", lambda: "mesh is %r, want %r, after %s" % (p.mesh(), mesh, what))
    for bad in (len(cells), len(cells) + 3):
        try:
            q = p[bad]
        except IndexError:
            c.check(True, "x")
        else:
            c.check(False, "partition.range", lambda: "p[%d] of %d cells gave %s" % (bad, len(cells), q))
    return True


def partitions(c):
    rng = c.rng
    log = []

    def base():
        a, b = sorted([float(rng.randint(-8, 8)) / rng.choice([1, 2, 4, 3]), float(rng.randint(-8, 8)) / rng.choice([1, 2, 3])])
        if a == b:
            b = a + 1
        return a, b, rng.choice(TYPES)

    def new(t=None):
        a, b, t2 = base()
        t = t2 if t is None else t
        mids = [rng.choice([a + (b - a) * rng.random(), a + (b - a) * rng.randint(-1, 9) / 8, a, b, float(rng.randint(-9, 9))]) for _ in range(rng.choice([0, 1, 3, 6]))]
        if mids and rng.random() < 0.3:
            mids.append(rng.choice(mids))
        ri = rp.RealInterval(a, b, t)
        log.append("new(%r,%r,%d mids)" % (a, b, len(mids)))
        if not mids and rng.random() < 0.5:
            return rp.Partition(ri), PModel(a, b, [], t)
        arg = rng.choice([list, tuple, iter, lambda z: (q for q in z)])(mids)
        return rp.Partition(ri, arg), PModel(a, b, mids, t)
    pool = [list(new())]
    for step in range(rng.randint(2, 8)):
        e = rng.choice(pool)
        p, m = e
        op = rng.choice(["new", "insert", "insert", "refine", "merge", "merge", "pickle", "badinsert"])
        log.append(op)
        if op == "new":
            pool.append(list(new(m.t)))
        elif op == "insert":
            x = rng.choice([m.lo + (m.hi - m.lo) * rng.random(), (m.lo + m.hi) / 2] + m.mids)
            if not m.lo < x < m.hi:
                continue
            p.insert_intermediate(x)
            e[1] = PModel(m.lo, m.hi, m.mids + [x], m.t)
        elif op == "badinsert":
            x = rng.choice([m.lo - 1, m.hi + 0.5, m.lo, m.hi, math.nan, INF, -INF])
            try:
                p.insert_intermediate(x)
            except ValueError:
                c.check(True, "x")
            else:
                c.check(False, "partition.insert.outside", lambda: "%r was accepted in [%r,%r]" % (x, m.lo, m.hi))
        elif op == "refine":
            if len(m.mids) > 40:
                continue
            cells = m.cells()
            if min(b - a for a, b in cells) < 1e-9:
                continue
            pool.append([p.refine_midpoints(), PModel(m.lo, m.hi, m.mids + [(a + b) / 2.0 for a, b in cells], m.t)])
        elif op == "merge":
            q, n = rng.choice(pool)
            if n.t != m.t:
                try:
                    p.merge(q)
                except Exception:  # noqa: BLE001
                    c.check(True, "x")
                continue
            pool.append([p.merge(q), PModel(min(m.lo, n.lo), max(m.hi, n.hi), m.mids + n.mids + [m.lo, m.hi, n.lo, n.hi], m.t)])
        else:
            e[0] = pickle.loads(pickle.dumps(p))
        for q, n in pool:
            if not partition_ok(c, q, n, log):
                return
        del pool[:-4]
    c.describe("partition " + " ".join(log))
    for p, m in pool:
        for q, n in pool:
            c.check((p == q) == (m == n), "partition.eq", lambda: "%s == %s gave %s after %s" % (m.mids, n.mids, p == q, log))
        same = rp.Partition(rp.RealInterval(m.lo, m.hi, m.t), list(reversed(m.mids)))
        c.check(p == same, "partition.eq.rebuilt", lambda: "%s" % log)


def segment(c):
    rng = c.rng
    depth = rng.randint(1, 10)
    # exactly representable affine map
    a = math.ldexp(rng.randint(-40, 40), -rng.randint(0, 3))
    length = rng.choice([1.0, 2.0, 0.5, 3.0, 5.0, 0.375, 16.0])
    t = rng.choice(TYPES)
    unit = F(length)
    comps = []
    pos = F(0)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        sc = 2 ** rng.choice([depth, depth + 2, 3, 4])
        gap = F(rng.randint(0, sc), sc) / rng.choice([1, 2, 8])
        ln = F(rng.randint(1, sc), sc) / rng.choice([1, 2, 4, 16])
        lo = pos + gap
        hi = lo + ln
        if lo == pos and comps:
            lo = pos + F(1, 2 ** (depth + 3))
        if hi > 1:
            hi = F(1) if rng.random() < 0.5 else F(5, 4)
        if lo >= hi:
            break
        comps.append((lo, hi))
        pos = hi
        if hi >= 1:
            break
    calls = []
    real = [(F(a) + lo * unit, F(a) + hi * unit) for lo, hi in comps]

    def pred(iv):
        lo, hi = F(iv.inf()), F(iv.sup())
        calls.append((lo, hi))
        return any(x <= lo and hi <= y for x, y in real)
    arg = rp.RealInterval(a, a + length, t)
    got = rp.segment(arg, pred, depth)
    c.describe("segment %s len %s depth %d comps %s" % (a, length, depth, [(float(x), float(y)) for x, y in comps]), nontrivial=bool(comps))
    for lo, hi in calls:
        if not c.check(lo >= F(a) and hi <= F(a) + unit, "segment.outside", lambda: "predicate asked about [%s,%s] (%s)" % (float(lo), float(hi), c.desc)):
            break
    # cells of the finest grid that lie inside one component
    step = F(1, 2 ** depth)
    whole = any(x <= 0 and y >= 1 for x, y in comps)
    want = []
    if whole:
        want = [(F(0), F(1))]
    else:
        for x, y in comps:
            lo, hi = dceil(max(x, F(0)), depth), dfloor(min(y, F(1)), depth)
            if lo < hi:
                if want and want[-1][1] == lo:
                    want[-1] = (want[-1][0], hi)
                else:
                    want.append((lo, hi))
    g, prev = [], None
    segs = [((F(s.inf()) - F(a)) / unit, (F(s.sup()) - F(a)) / unit) for s in got]
    for s in got:
        c.check(s.interval_type == t, "segment.type", lambda: "%s (%s)" % (s, c.desc))
    for lo, hi in sorted(segs):
        c.check(lo < hi, "segment.empty", lambda: "%s (%s)" % (got, c.desc))
        if g and g[-1][1] == lo:
            g[-1] = (g[-1][0], hi)
        else:
            if g:
                c.check(g[-1][1] < lo, "segment.overlap", lambda: "%s (%s)" % (got, c.desc))
            g.append((lo, hi))
    c.check(segs == sorted(segs), "segment.order", lambda: "%s (%s)" % (got, c.desc))
    c.check(g == want, "segment.exact", lambda: "got %s want %s (%s)" % ([(float(x), float(y)) for x, y in g], [(float(x), float(y)) for x, y in want], c.desc))


def families(tier):
    q = 1 if tier == "quick" else 40
    return [("points", points, 700 * q), ("partitions", partitions, 800 * q), ("segment", segment, 900 * q)]


def programs(tier):
    m = 1 if tier == "quick" else 40
    return [("intervals", "asan", [("native_sets", 3000 * m)], 4)]
