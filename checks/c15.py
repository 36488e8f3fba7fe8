"""C15 tick streams."""
import datetime, math
from fractions import Fraction as F
import roughpy as rp
import ref, rpx, sm

RULE = ("sequences of timed events over increment, value, categorical and lead-lag channels, written in random mixtures of every accepted nesting "
        "(tuples, lists, dicts keyed by time, label or type, full dicts, inferred types, enum types, custom parsers), with or without a schema in any "
        "spelling, with an added time channel, extra width, numeric or datetime timestamps, ties and unsorted layouts; every query is compared with the "
        "ordered product of the events' increments computed from the events by exact arithmetic; non-trivial: the query covers an event with a non-zero increment")
ASSUMPTIONS = ["time is counted from the first event given; the added time channel is relative to that origin",
               "single and double coefficients compared within a forward error bound"]
MIN_CASES = 300
SCALE = 4
LABELS = ["a", "b", "first", "x1", "11", "1", "long label", "é", "Value", "zz"]


def enum(t):
    return {"increment": rp.IncrementChannel, "value": rp.ValueChannel, "categorical": rp.CategoricalChannel}[t]


class Chan:
    def __init__(self, label, kind, variants=None):
        self.label, self.kind, self.variants = label, kind, list(variants or [])

    def width(self):
        return {"leadlag": 2, "categorical": len(self.variants)}.get(self.kind, 1)


def spell_schema(rng, chans):
    """One of the spellings of a schema, in the order given."""
    def opts(ch):
        if ch.kind == "leadlag":
            return "value", {"lead_lag": True}
        if ch.kind == "categorical":
            return "categorical", ({"categories": list(ch.variants)} if ch.variants or rng.random() < .5 else {})
        return ch.kind, rng.choice([{}, {"lead_lag": False}] if ch.kind == "value" else [{}])

    def ty(t):
        return enum(t) if rng.random() < .3 else (t.upper() if rng.random() < .2 else t)

    style = rng.choice(["dict", "list"])
    if style == "dict":
        out = {}
        for ch in chans:
            t, o = opts(ch)
            out[ch.label] = rng.choice([dict(type=ty(t), **o), (ty(t), o), [ty(t), o]] + ([(ty(t),), [ty(t)]] if not o else []))
        return out
    out = []
    for ch in chans:
        t, o = opts(ch)
        out.append(rng.choice([dict(label=ch.label, type=ty(t), **o), (ch.label, ty(t), o), [ch.label, ty(t), o]] + ([(ch.label, ty(t))] if not o else [])))
    return out if rng.random() < .7 else tuple(out)


def spell(rng, evs, names=("timestamp", "label", "type", "data")):
    """Nest events (tuples of the values of names, in visiting order) in some accepted way; may be called for any tail of names."""
    def infer_ok(e):
        t, x = e[-2], e[-1]
        return (t == "increment" and isinstance(x, (int, float))) or (t == "categorical" and isinstance(x, str))

    def val(i, x):
        return enum(x) if names[i] == "type" and rng.random() < .2 else x

    def one(e):
        """Spell a single event."""
        n = len(names)
        ch = ["full", "dict", "nest", "key"]
        if n == 1:
            return e[0]
        if n == 2 and infer_ok(e):
            ch += ["infer"] * 3
        if n >= 3:
            ch += ["flat"]
        k = rng.choice(ch)
        if k == "infer":
            return e[1]
        if k == "full":
            return tuple(val(i, x) for i, x in enumerate(e))
        if k == "dict":
            items = [(m, val(i, x)) for i, (m, x) in enumerate(zip(names, e))]
            rng.shuffle(items)
            return dict(items)
        if k == "key" and names[0] != "type":
            return {e[0]: spell(rng, [e[1:]], names[1:])}
        if k == "key":
            return {e[0]: e[1]}
        if k == "flat" and n == 3 and infer_ok(e):
            return (e[0], e[2])
        if k == "flat" and n == 4 and infer_ok(e) and rng.random() < .5:
            return (e[0], e[1], e[3])
        if k == "flat" and n == 4:
            return (e[0], e[1], spell(rng, [e[2:]], names[2:])) if rng.random() < .5 else (e[0], tuple(e[1:]))
        if n == 2:
            return tuple(e)
        return (e[0], spell(rng, [e[1:]], names[1:]))

    if len(names) == 1:
        return evs[0][0]
    if len(evs) == 1 and rng.random() < .7:
        return one(evs[0])
    runs = []
    for e in evs:
        if runs and runs[-1][0][0] == e[0] and type(runs[-1][0][0]) is type(e[0]) and rng.random() < .8:
            runs[-1].append(e)
        else:
            runs.append([e])
    keys = [r[0][0] for r in runs]
    if names[0] in ("timestamp", "label") and len(set(keys)) == len(keys) and rng.random() < .6:
        d = {r[0][0]: spell(rng, [e[1:] for e in r], names[1:]) for r in runs}
        return d
    out = []
    for r in runs:
        if len(r) == 1:
            out.append(one(r[0]))
        elif names[0] != "type" and rng.random() < .5:
            out.append((r[0][0], spell(rng, [e[1:] for e in r], names[1:])))
        elif names[0] != "type" and rng.random() < .5:
            out.append({r[0][0]: spell(rng, [e[1:] for e in r], names[1:])})
        elif rng.random() < .3:
            out.append(spell(rng, r, names))
        else:
            out.extend(one(e) for e in r)
    return out


def custom():
    import importlib
    base = importlib.import_module("roughpy.streams.tick_stream").BaseTickDataParser

    class Custom(base):
        def parse_data(self, data):
            for t, l, k, x in data:
                if k == "increment":
                    self.helper.add_increment(l, timestamp=t, data=x)
                elif k == "value":
                    self.helper.add_value(l, timestamp=t, data=x)
                else:
                    self.helper.add_categorical(l, timestamp=t, variant=x)
    return Custom


def make(c):
    rng = c.rng
    num = rng.choice("DDRRS")
    nch = rng.choice([1, 1, 2, 2, 3, 4])
    labels = rng.sample(LABELS, nch)
    chans = []
    for l in labels:
        k = rng.choice(["increment", "increment", "value", "value", "categorical", "leadlag"])
        chans.append(Chan(l, k, rng.sample(["x", "y", "zed", "x:y", "0", "1"], rng.choice([1, 2, 3])) if k == "categorical" else None))
    need = any(ch.kind == "leadlag" for ch in chans)
    use = need or rng.random() < .4
    n = rng.choice([1, 2, 3, 4, 6, 9, 14]) if rng.random() < .94 else rng.choice([20, 28, 40])
    tmode = rng.choice(["float"] * 5 + ["int", "mixed", "date"])
    if tmode == "float":
        ts = sm.times(rng, n)
    elif tmode in ("int", "mixed"):
        ts = sorted(rng.choice([rng.randint(-6, 9), rng.randint(1700000000, 1700000012)] if tmode == "int" else [rng.randint(-6, 9)]) if rng.random() < .5 else rng.randint(-4, 4) for _ in range(n))
        if max(ts) - min(ts) > 40:
            ts = sorted(1700000000 + rng.randint(0, 12) for _ in range(n))
        if tmode == "mixed":
            ts = [float(t) if rng.random() < .5 else t for t in ts]
    else:
        base = datetime.datetime(2021, 3, 28, 0, 59, 58)
        ts = sorted(base + datetime.timedelta(microseconds=rng.choice([250000 * rng.randint(0, 40), rng.randint(0, 9000000)])) for _ in range(n))
    evs = []
    for t in ts:
        ch = rng.choice(chans)
        if ch.kind == "categorical":
            evs.append((t, ch.label, "categorical", rng.choice(ch.variants)))
        else:
            x = rng.choice([rng.randint(-5, 5), float(rng.randint(-16, 16)) / 4, 0.0, rng.uniform(-3, 3)] if num != "R" else [rng.randint(-5, 5), rng.randint(-16, 16) / 4])
            if num == "S" and isinstance(x, float):
                x = float(F(round(x * 64), 64))
            evs.append((t, ch.label, "increment" if ch.kind == "increment" else "value", x))
    if rng.random() < .3:
        # unsorted, equal times keep their order
        byt = {}
        for e in evs:
            byt.setdefault(e[0], []).append(e)
        order = [e[0] for e in evs]
        rng.shuffle(order)
        evs = [byt[t].pop(0) for t in order]
    kw = {}
    schema = []
    if use:
        # a given schema is complete; channel_types only states the kinds
        schema = [Chan(ch.label, ch.kind, rng.sample(ch.variants, len(ch.variants))) for ch in chans]
        rng.shuffle(schema)
        if not need and rng.random() < .3:
            for ch in schema:
                ch.variants = []
            types = rng.random() < .7
            kw["channel_types"] = {ch.label: enum(ch.kind) if types else ch.kind for ch in schema}
        else:
            sp = spell_schema(rng, schema)
            kw["schema"] = sp if rng.random() < .6 else rp.StreamSchema.parse(sp)
    pos = {ch.label: ch for ch in schema}
    order = list(schema)
    kinds = {ch.label: ch.kind for ch in chans}
    for t, l, k, x in evs:
        if l not in pos:
            pos[l] = Chan(l, kinds[l])
            order.append(pos[l])
        if k == "categorical" and x not in pos[l].variants:
            pos[l].variants.append(x)
    dims, w = {}, 0
    for ch in order:
        dims[ch.label] = w + 1
        w += ch.width()
    if w == 0:
        return None
    fixed = "schema" in kw
    extra = rng.choice([0, 0, 0, 1, 2]) if w < 4 and not fixed else 0
    time = rng.random() < .25 and not fixed
    d = rng.choice([1, 2, 2, 3]) if w + extra + time > 3 else rng.choice([1, 2, 3, 4])
    how = rng.choice(["kw", "ctx"])
    if how == "ctx":
        kw["ctx"] = rpx.ctx(w + extra, d, num)
    else:
        kw.update(depth=d, dtype=rpx.KINDS[num])
        if extra or rng.random() < .5:
            kw["width"] = w + extra
    if time:
        # a width given may or may not count the time channel
        kw["include_time"] = True
        w = max(w + extra, w + 1) if "ctx" in kw or "width" in kw else w + 1
    else:
        w += extra
    res = rng.choice([None, 0, 1, 2, 3, 5, 9, -1])
    if res is not None:
        kw["resolution"] = res
    if rng.random() < .2:
        kw["vtype"] = rng.choice([rp.DenseVector, rp.SparseVector])
    # time from the first event
    t0 = evs[0][0]
    rel = []
    for e in evs:
        dt = e[0] - t0
        rel.append(dt.total_seconds() if isinstance(dt, datetime.timedelta) else float(dt))
    if rng.random() < .1:
        kw["parser"] = custom()
        data = [tuple(e) for e in evs]
    else:
        data = spell(rng, [tuple(e) for e in evs])
        if not isinstance(data, (list, dict, tuple)):
            data = [data]
    text = "%s d%d %s data=%r" % (num, d, {k: str(v)[:80] for k, v in kw.items()}, data)
    s = c.call("from_data", rp.TickStream.from_data, data, **kw)
    if s is None:
        c.describe(text, nontrivial=False)
        return None
    # increments in event order
    order2 = sorted(range(len(evs)), key=lambda i: rel[i])
    prev, last, incs = {}, 0.0, []
    for i in order2:
        t, l, k, x = evs[i]
        p = dims[l]
        if k == "increment":
            g = {p: F(x)}
        elif k == "categorical":
            g = {p + pos[l].variants.index(x): F(1)}
        else:
            step = F(x) - prev.get(l, F(0))
            prev[l] = F(x)
            if pos[l].kind == "leadlag":
                both = ref.mul(ref.exp({(p,): step}, d), ref.exp({(p + 1,): step}, d), d)
                g = ref.log(both, d)
            else:
                g = {p: step}
        if not (g and isinstance(next(iter(g)), tuple)):
            g = {(i_,): v for i_, v in g.items() if v}
        if time:
            now = rel[i]
            if now != last:
                g = dict(g)
                g[(w,)] = F(now - last)    # in double precision
            last = now
        incs.append((rel[i], {k_: v for k_, v in g.items() if v}))
    c.check(s.width == w, "width", lambda: "width %s, expected %s: %s" % (s.width, w, text))
    c.check(s.ctx.depth == d, "depth", lambda: "depth %s, expected %s: %s" % (s.ctx.depth, d, text))
    rr = s.resolution
    c.check(rr == (res or 0), "resolution", lambda: "resolution %s: %s" % (rr, text))
    m = sm.Model(w, num, incs, rr, ends=(s.support.inf(), s.support.sup()))
    c.check(m.ends[0] <= min(rel) and (max(rel) < m.ends[1]), "support", lambda: "support %s of times %s: %s" % (s.support, sorted(rel), text))
    m.text, m.d = text, d
    return s, m, num, d, w


def product(gs, d):
    t = {(): F(1)}
    for g in gs:
        if g:
            t = ref.mul(t, ref.exp(g, d), d)
    return t


def ticks(c):
    rng = c.rng
    made = make(c)
    if made is None:
        return
    s, m, num, d, w = made
    c.describe(m.text[:900], nontrivial=False)
    ts = [t for t, _ in m.incs]
    lo, hi = m.ends
    whole = (math.floor(lo) - 1.0, math.ceil(hi) + 1.0)
    for j in range(4):
        a, b = whole if j == 0 else sm.rquery(rng, ts, res=m.res)
        if j and rng.random() < .3:
            a, b = sorted([rng.choice(ts), rng.choice(ts + [hi])])
        r = rng.choice([m.res, m.res, None, m.res + 1, m.res + 4, m.res - 1, 0, 3])
        kw = {}
        if r is not None:
            kw["resolution"] = r
        else:
            x, y = max(a, lo), min(b, hi)
            r = sm.auto_res(m.res, y - x) if y > x else m.res
        dd = d
        if rng.random() < .2:
            dd = kw["depth"] = rng.randint(1, d)
        gs = m.covered(a, b, r)
        text = "[%r,%r) %s" % (a, b, kw)
        c.describe(text, nontrivial=any(gs))
        want = product([{k: v for k, v in g.items() if len(k) <= dd} for g in gs], dd)
        scale = 1.0 if num == "R" else min(1e30, (1 + sum(sum(abs(float(x)) for x in g.values()) for g in gs)) ** dd * (16 + 4 * len(gs)))
        iv = rp.RealInterval(a, b)
        S = c.call("signature", s.signature, iv, **kw)
        L = c.call("log_signature", s.log_signature, iv, **kw)
        if S is None or L is None:
            return
        ok, got = sm.same_sig(S, want, num, scale, 1024)
        c.check(ok, "signature", lambda: "%s of %s: %s" % (text, m.text, rpx.diff(got, want)))
        lg = ref.log(want, dd)
        ok, got = sm.same_log(L, lg, num, scale, 4096)
        c.check(ok, "log_signature", lambda: "%s of %s: %s" % (text, m.text, rpx.diff(got, lg)))


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("ticks", ticks, 2500 * k)]
