"""C16 stream schemas."""
import roughpy as rp
import ref, rpx, sm, c15

RULE = ("random histories of channel insertions (parsed in every spelling, inserted one by one with given, repeated or empty labels, inferred from tick data, "
        "through the construction helper, with time and lead-lag options, edits after finalisation) against a model of the channel list; after every step width and "
        "labels are compared, and every label is resolved by streams with one event per dimension; non-trivial: at least two channels")
ASSUMPTIONS = ["labels containing ':' or NUL are reserved and not generated", "the time channel has no label of its own"]
MIN_CASES = 300
SCALE = 8
POOL = ["a", "b", "ab", "aa", "abc", "0", "1", "2", "10", "", "first", "lead", "lag", "é", "a b", " ", "x" * 300, "A", "type", "label", "time"]


class Model:
    def __init__(self):
        self.ch = []        # [label, kind, variants]
        self.time = False

    def find(self, l):
        for c in self.ch:
            if c[0] == l:
                return c
        return None

    def add(self, l, kind, variants=(), lead=False):
        if l == "":
            n = len(self.ch)
            while self.find(str(n)):
                n += 1
            l = str(n)
        c = self.find(l)
        if c is None:
            c = [l, "leadlag" if kind == "value" and lead else kind, []]
            self.ch.append(c)
        elif c[1] in ("value", "leadlag", "increment") and kind == "value" and lead is not None:
            c[1] = "leadlag" if lead else "value"
        if c[1] == "categorical":
            for v in variants:
                v = v or str(len(c[2]))
                if v not in c[2]:
                    c[2].append(v)
        return c

    def labels(self):
        out = []
        for l, k, v in self.ch:
            out += [l + ":lead", l + ":lag"] if k == "leadlag" else [l + ":" + x for x in v] if k == "categorical" else [l]
        return out

    def width(self):
        return len(self.labels()) + self.time


def compare(c, s, m, text):
    c.check(s.width() == m.width(), "width", lambda: "%s: width %s, expected %s" % (text, s.width(), m.width()))
    L = s.get_labels()
    c.check(list(L) == m.labels(), "labels", lambda: "%s: labels %s, expected %s" % (text, L, m.labels()))


def item(rng, uniq=None):
    l = rng.choice(POOL) if uniq is None else uniq
    k = rng.choice(["increment", "increment", "value", "value", "categorical", "lie"])
    v = rng.sample(["x", "y", "x:y", "0", "1", "", "zed", "lead"], rng.randint(0, 4)) if k == "categorical" else []
    lead = rng.choice([None, None, True, False]) if k == "value" else None
    return l, k, v, lead


def spelled(rng, items):
    def opts(k, v, lead):
        o = {}
        if k == "categorical" and (v or rng.random() < .5):
            o["categories"] = list(v) if rng.random() < .7 else tuple(v)
        if lead is not None:
            o["lead_lag"] = lead
        return o

    def ty(k):
        if rng.random() < .3:
            return {"increment": rp.IncrementChannel, "value": rp.ValueChannel, "categorical": rp.CategoricalChannel, "lie": rp.LieChannel}[k]
        return rng.choice([k, k.upper(), k.capitalize()])
    ls = [i[0] for i in items]
    if len(set(ls)) == len(ls) and rng.random() < .5:
        out = {}
        for l, k, v, lead in items:
            o = opts(k, v, lead)
            out[l] = rng.choice([dict(o, type=ty(k)), (ty(k), o), [ty(k), o]] + ([] if o else [(ty(k),), [ty(k)]]))
        return out
    out = []
    for l, k, v, lead in items:
        o = opts(k, v, lead)
        out.append(rng.choice([dict(o, type=ty(k), label=l), (l, ty(k), o), [l, ty(k), o]] + ([] if o else [(l, ty(k)), [l, ty(k)]])))
    return out


def history(c):
    rng = c.rng
    m = Model()
    import importlib
    H = importlib.import_module("roughpy._roughpy").TickStreamConstructionHelper
    items = [item(rng) for _ in range(rng.randint(0, 5))]
    start = rng.choice(["parse", "parse", "data", "helper"])
    text = start
    if start == "parse":
        sp = spelled(rng, items)
        text = "parse %r" % (sp,)
        keep = repr(sp)
        s = rp.StreamSchema.parse(sp)
        for l, k, v, lead in items:
            m.add(l, k, v, lead)
        c.check(repr(sp) == keep, "argument", lambda: "the specification %s was changed to %r" % (keep, sp))
    elif start == "data":
        evs = []
        for _ in range(rng.randint(1, 6)):
            l = rng.choice([p for p in POOL if p not in ("type", "label", "")])
            k = rng.choice(["increment", "value", "categorical"])
            old = m.find(l)
            if old:
                k = old[1]
            x = rng.choice(["u", "v", "w"]) if k == "categorical" else 1.5
            evs.append((float(len(evs)), l, k, x))
            m.add(l, k, [x] if k == "categorical" else [], None)
        data = c15.spell(rng, evs)
        if not isinstance(data, (list, dict, tuple)):
            data = [data]
        text = "from_data %r" % (data,)
        s = rp.StreamSchema.from_data(data)
    else:
        s = rp.StreamSchema.parse({})
    c.describe(text, nontrivial=False)
    compare(c, s, m, text)
    for _ in range(rng.randint(0, 8)):
        op = rng.choice(["inc", "val", "cat", "hinc", "hval", "hcat", "hcat0", "time", "bad"])
        l = rng.choice(POOL)
        if m.find(l) and rng.random() < .3:
            l = rng.choice(POOL)
        text += " ; %s %s" % (op, l[:9])
        if op == "inc":
            c.call("insert", s.insert_increment, l)
            m.add(l, "increment", (), None)
        elif op == "val":
            c.call("insert", s.insert_value, l)
            m.add(l, "value", (), None)
        elif op == "cat":
            c.call("insert", s.insert_categorical, l)
            m.add(l, "categorical", (), None)
        elif op == "time":
            if rng.random() < .3:
                H(s, True).add_time_channel()
                m.time = True
        elif op == "bad":
            try:
                rp.StreamSchema.parse(rng.choice([{"a": 1}, [1], 5, {"a": ("x",)}, [("a",)], {"a": {}}, [{"type": "value"}], {"a": ()}, [()], {"a": ("value", 1)}, {"a": ("value", {}, {})}]))
                c.check(False, "malformed", "a malformed schema was accepted")
            except (ValueError, TypeError, RuntimeError, KeyError, IndexError):
                pass
        else:
            h = H(s, True)
            if op == "hinc":
                h.add_increment(l)
                m.add(l, "increment", (), None)
            elif op == "hval":
                h.add_value(l)
                m.add(l, "value", (), None)
            elif op == "hcat0":
                h.add_categorical(l)
                m.add(l, "categorical", (), None)
            else:
                v = rng.choice(["x", "y", "x:y", "0", ""])
                h.add_categorical(l, variant=v)
                m.add(l, "categorical", [v], None)
        c.describe(text, nontrivial=len(m.ch) > 1)
        compare(c, s, m, text)
    # resolve every label
    if m.ch and m.width() - m.time > 0 and not any(k == "lie" for _, k, _ in m.ch) and m.width() <= 12 and not m.time:
        resolve(c, s, m, text)


def resolve(c, s, m, text):
    rng = c.rng
    evs, want = [], {}
    pos = 0
    for l, k, vs in m.ch:
        if k == "categorical":
            for v in vs:
                pos += 1
                n = rng.randint(0, 3)
                evs += [(l, "categorical", v)] * n
                want[pos] = n
        elif k == "leadlag":
            x = float(rng.randint(-5, 5))
            evs.append((l, "value", x))
            want[pos + 1] = want[pos + 2] = x
            pos += 2
        else:
            x = float(rng.randint(-5, 5))
            evs.append((l, k, x))
            pos += 1
            want[pos] = x
    if not evs:
        return
    rng.shuffle(evs)
    data = [(float(i), l, k, x) for i, (l, k, x) in enumerate(evs)]
    st = c.call("stream", rp.TickStream.from_data, data, schema=s, dtype=rp.DPReal, depth=1)
    c.check(st.width == m.width(), "stream.width", lambda: "%s: stream width %s" % (text, st.width))
    got = rpx.read_lie(st.log_signature(rp.RealInterval(0, len(evs) + 1), 2), "D")
    c.check(got == {k: v for k, v in want.items() if v}, "resolve", lambda: "%s: events %s gave %s, expected %s" % (text, data, got, want))
    # now final
    for f in (s.insert_increment, s.insert_value, s.insert_categorical):
        try:
            f("new one")
            c.check(False, "final", "%s: a final schema was extended" % text)
        except RuntimeError:
            pass
    compare(c, s, m, text + " ; final")
    try:
        rp.TickStream.from_data(data + [(99.0, "no such", "increment", 1.0)], schema=s, dtype=rp.DPReal, depth=1)
        c.check(False, "unknown", "%s: an event with an unknown label was accepted" % text)
    except (ValueError, RuntimeError):
        pass
    compare(c, s, m, text + " ; final")


def families(tier):
    k = 1 if tier == "quick" else 8
    return [("history", history, 3000 * k)]
