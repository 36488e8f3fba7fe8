// builds: asan
// C20, C21, C22: dyadic numbers and intervals of both conventions against exact integers.
#include "vp.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <roughpy/intervals/dyadic.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/intervals/real_interval.h>
using namespace rpy;
using namespace rpy::intervals;
using vp::Case;
using vp::cat;
namespace mp = boost::multiprecision;
using Z = mp::number<mp::cpp_int_backend<512, 512, mp::signed_magnitude, mp::unchecked, void>, mp::et_off>;

namespace {

constexpr int S = 200;// everything is a multiple of 2^-S
using K = Dyadic::multiplier_t;
using P = Dyadic::power_t;

Z val(K k, int n) { return Z(k) << (S - n); }
Z val(const Dyadic& d) { return val(d.multiplier(), d.power()); }
Z val(double x)
{
    int e;
    double m = std::frexp(x, &e);
    long long k = static_cast<long long>(std::ldexp(m, 53));
    return k < 0 ? Z(-(Z(-k) << (S + e - 53))) : Z(Z(k) << (S + e - 53));
}
bool big(K k, int bits) { return k >= (K(1) << bits) || k <= -(K(1) << bits); }
bool clop(IntervalType t) { return t == IntervalType::Clopen; }
const char* tn(IntervalType t) { return clop(t) ? "[)" : "(]"; }
IntervalType rt(Case& c) { return c.chance(0.5) ? IntervalType::Clopen : IntervalType::Opencl; }

K rk(Case& c)
{
    switch (c.below(6)) {
        case 0: return c.range(-2, 2);
        case 1: return c.range(-40, 40);
        case 2: return c.range(-1000000, 1000000);
        case 3: return (K(1) << c.range(0, 40)) * c.pick({-1, 1}) + c.range(-1, 1);
        case 4: return static_cast<K>(c.eng() >> 14) - (K(1) << 49);
        default: return (K(1) << c.range(0, 20)) * c.range(-9, 9);
    }
}
int rn(Case& c) { return c.chance(0.7) ? static_cast<int>(c.range(-4, 8)) : static_cast<int>(c.range(-60, 100)); }

int sgn(const Z& a) { return a.sign(); }

struct Set {
    Z lo, hi;
    IntervalType t;
    bool empty() const { return lo == hi; }
    bool has(const Z& p) const { return clop(t) ? lo <= p && p < hi : lo < p && p <= hi; }
    Z inc() const { return clop(t) ? lo : hi; }
    Z exc() const { return clop(t) ? hi : lo; }
    Z len() const { return hi - lo; }
    bool operator==(const Set& o) const { return lo == o.lo && hi == o.hi && t == o.t; }
};
Set cell(K k, int n, IntervalType t)
{
    return clop(t) ? Set{val(k, n), val(k + 1, n), t} : Set{val(k - 1, n), val(k, n), t};
}
Set setof(const DyadicInterval& d) { return cell(d.multiplier(), d.power(), d.type()); }
std::string show(const DyadicInterval& d) { return cat(d.multiplier(), "/2^", d.power(), tn(d.type())); }
std::string show(const Set& s)
{
    auto f = [](const Z& z) { return std::ldexp(z.convert_to<double>(), -S); };
    return cat(tn(s.t)[0], f(s.lo), ", ", f(s.hi), tn(s.t)[1]);
}

// every reading of d agrees with the set s of dyadic length 2^-n
void readable(Case& c, const DyadicInterval& d, const Set& s, int n, const std::string& what)
{
    auto say = [&] { return cat(what, " gives ", show(d), " not ", show(s), " 2^-", n); };
    c.check(d.type() == s.t, "di.type", say);
    c.check(d.power() == n, "di.power", say);
    c.check(setof(d) == s, "di.set", say);
    c.check(val(d.dinf()) == s.lo && val(d.dsup()) == s.hi, "di.ends", say);
    c.check(val(d.dincluded_end()) == s.inc() && val(d.dexcluded_end()) == s.exc(), "di.included", say);
    if (!big(d.multiplier(), 51)) {
        c.check(val(d.inf()) == s.lo && val(d.sup()) == s.hi, "di.real_ends", say);
        c.check(val(d.included_end()) == s.inc() && val(d.excluded_end()) == s.exc(), "di.real_included", say);
        Z h = s.lo + s.len() / 2;
        double lo = d.inf(), hi = d.sup(), mid = lo + (hi - lo) / 2;
        for (double x : {lo, hi, mid, std::nextafter(lo, HUGE_VAL), std::nextafter(lo, -HUGE_VAL), std::nextafter(hi, HUGE_VAL), std::nextafter(hi, -HUGE_VAL)}) {
            if (std::fabs(x) < 1e-40 && x != 0) { continue; }
            c.check(d.contains_point(x) == s.has(val(x)), "di.contains_point", [&] { return cat(say(), " and point ", x); });
        }
    }
    c.check(d.unit() == (clop(s.t) ? 1 : -1), "di.unit", say);
    c.check(d.aligned() == (s.inc() % (s.len() * 2) == 0), "di.aligned", say);
}

void numbers(Case& c)
{
    Dyadic d(rk(c), rn(c));
    c.describe(cat("number ", d.multiplier(), "/2^", d.power()));
    for (int step = 0; step < 8; ++step) {
        Z before = val(d);
        Z one = val(1, d.power());
        Dyadic r = d;
        std::string what;
        Z want = before;
        int n = d.power();
        switch (c.below(6)) {
            case 0: { Dyadic& q = ++d; want = before + one; what = "++x"; c.check(&q == &d, "dyadic.preinc"); break; }
            case 1: { Dyadic& q = --d; want = before - one; what = "--x"; c.check(&q == &d, "dyadic.predec"); break; }
            case 2: { Dyadic q = d++; want = before + one; what = "x++"; c.check(val(q) == before && q.power() == n, "dyadic.postinc"); break; }
            case 3: { Dyadic q = d--; want = before - one; what = "x--"; c.check(val(q) == before && q.power() == n, "dyadic.postdec"); break; }
            case 4: {
                K a = c.chance(0.1) ? c.pick({std::numeric_limits<K>::max(), std::numeric_limits<K>::min()}) : rk(c);
                what = cat("move_forward ", a);
                Z m = Z(d.multiplier()) + a;
                if (m > std::numeric_limits<K>::max() || m < std::numeric_limits<K>::min()) {
                    c.must_throw("dyadic.move_overflow", [&] { d.move_forward(a); });
                } else {
                    d.move_forward(a);
                    want = before + one * a;
                }
                break;
            }
            default: {
                P res = c.chance(0.5) ? static_cast<P>(n + c.range(-5, 12)) : static_cast<P>(rn(c));
                what = cat("rebase ", res);
                Z unit = val(1, res);
                bool fits = before % unit == 0 && before / unit <= std::numeric_limits<K>::max() && before / unit >= std::numeric_limits<K>::min();
                bool ok = d.rebase(res);
                c.check(ok == fits, "dyadic.rebase", [&] { return cat(what, " gives ", ok); });
                if (ok) { n = res; } else { n = d.power(); }
            }
        }
        c.describe(what);
        if (big(d.multiplier(), 62)) { d = Dyadic(3, 2); want = val(d); n = 2; }
        c.check(val(d) == want, "dyadic.value", [&] { return cat(what, " gives ", d.multiplier(), "/2^", d.power()); });
        c.check(d.power() == n, "dyadic.power", [&] { return cat(what, " gives power ", d.power()); });
        Dyadic o = c.chance(0.3) ? d : c.chance(0.5) ? r : Dyadic(rk(c), rn(c));
        if (c.chance(0.4)) { o.rebase(static_cast<P>(o.power() + c.range(0, 5))); }
        if (c.chance(0.2)) { ++o; }
        int s = sgn(val(d) - val(o));
        auto say = [&] { return cat(d.multiplier(), "/2^", d.power(), " and ", o.multiplier(), "/2^", o.power(), " compare ", rational_compare(d, o)); };
        c.check(sgn(Z(rational_compare(d, o))) == s, "dyadic.compare", say);
        c.check((d < o) == (s < 0) && (d <= o) == (s <= 0) && (d > o) == (s > 0) && (d >= o) == (s >= 0), "dyadic.order", say);
        c.check(rational_equals(d, o) == (s == 0), "dyadic.equal", say);
        c.check(dyadic_equals(d, o) == (s == 0 && d.power() == o.power()), "dyadic.same", say);
        K a = rk(c), b = c.pick({K(2), K(3), K(7), K(-5), K(16), K(1)}), m = Dyadic::mod(a, b);
        c.check(m >= 0 && m < std::llabs(b) && (a - m) % b == 0, "dyadic.mod", [&] { return cat("mod(", a, ", ", b, ") = ", m); });
        int e = static_cast<int>(c.range(0, 62));
        c.check(Z(Dyadic::int_two_to_int_power(e)) == (Z(1) << e), "dyadic.two_to");
        if (big(d.multiplier(), 61)) { d = Dyadic(rk(c), rn(c)); }
    }
}

void walk(Case& c)
{
    IntervalType t = rt(c);
    DyadicInterval d(rk(c), static_cast<P>(rn(c)), t);
    int n = d.power();
    Set s = setof(d);
    c.describe(cat("interval ", show(d)));
    readable(c, d, s, n, "made");
    for (int step = 0; step < 9; ++step) {
        std::string what;
        Z L = s.len(), half = L / 2;
        bool can_split = !big(d.multiplier(), 55) && n < 150;
        switch (c.below(11)) {
            case 0:
                if (!can_split) { continue; }
                {
                    int a = static_cast<int>(c.range(1, 4));
                    what = cat("shrink_to_contained_end(", a, ")");
                    d = a == 1 && c.chance(0.5) ? d.shrink_to_contained_end() : d.shrink_to_contained_end(a);
                    (clop(t) ? s.hi : s.lo) = clop(t) ? Z(s.lo + (L >> a)) : Z(s.hi - (L >> a));
                    n += a;
                }
                break;
            case 1:
                if (!can_split) { continue; }
                what = "shrink_to_omitted_end";
                d = d.shrink_to_omitted_end();
                (clop(t) ? s.lo : s.hi) = s.lo + half;
                ++n;
                break;
            case 2:
                if (!can_split) { continue; }
                what = "shrink_interval_right";
                c.check(&d.shrink_interval_right() == &d, "di.self");
                s.lo += half;
                ++n;
                break;
            case 3:
                if (!can_split) { continue; }
                {
                    int a = static_cast<int>(c.range(1, 3));
                    what = cat("shrink_interval_left ", a);
                    c.check(&(a == 1 ? d.shrink_interval_left() : d.shrink_interval_left(a)) == &d, "di.self");
                    s.hi = s.lo + (L >> a);
                    n += a;
                }
                break;
            case 4:
            case 5: {
                int a = c.chance(0.6) ? 1 : c.chance(0.8) ? static_cast<int>(c.range(0, 12)) : static_cast<int>(c.range(0, 90));
                if (n - a < -150) { continue; }
                what = cat("expand_interval ", a);
                c.check(&(a == 1 ? d.expand_interval() : d.expand_interval(a)) == &d, "di.self");
                n -= a;
                Z len = L << a, lo = s.lo / len * len;
                if (lo > s.lo) { lo -= len; }
                s.lo = lo;
                s.hi = lo + len;
                break;
            }
            case 6: {
                what = "flip_interval";
                c.check(&d.flip_interval() == &d, "di.self");
                // the other half of the parent
                bool left = s.lo % (L * 2) == 0;
                s.lo += left ? L : Z(-L);
                s.hi += left ? L : Z(-L);
                break;
            }
            case 7:
            case 8: {
                K a = c.pick({K(0), K(1), K(1), K(2), K(-1), K(5), K(-37), K(1000)});
                bool fwd = c.chance(0.5);
                what = cat(fwd ? "shift_forward " : "shift_back ", a);
                DyadicInterval q = fwd ? (a == 1 ? d.shift_forward() : d.shift_forward(a)) : (a == 1 ? d.shift_back() : d.shift_back(a));
                c.check(setof(d) == s, "di.shift_const", [&] { return what; });
                d = q;
                Z by = L * a * (clop(t) ? 1 : -1) * (fwd ? -1 : 1);
                s.lo += by;
                s.hi += by;
                break;
            }
            case 9:
                what = "advance";
                c.check(&d.advance() == &d, "di.self");
                s.lo += clop(t) ? L : Z(-L);
                s.hi += clop(t) ? L : Z(-L);
                break;
            default: {
                // the cell of a coarser or finer grid at the included end
                int m = n + static_cast<int>(c.range(-20, 5));
                if (m > n && !can_split) { continue; }
                what = cat("included end at ", m);
                d = DyadicInterval(d.dincluded_end(), m, t);
                Z len = val(1, m), inc = s.inc(), k = inc / len;
                if (clop(t) && k * len > inc) { --k; }
                if (!clop(t) && k * len < inc) { ++k; }
                s.lo = (clop(t) ? k : Z(k - 1)) * len;
                s.hi = s.lo + len;
                n = m;
            }
        }
        c.describe(what);
        readable(c, d, s, n, what);
        if (!(setof(d) == s)) { return; }
        if (big(d.multiplier(), 60)) { return; }
    }
}

DyadicInterval near(Case& c, const DyadicInterval& d)
{
    DyadicInterval q = d;
    for (long i = c.range(0, 4); i > 0; --i) {
        switch (c.below(5)) {
            case 0: q.expand_interval(static_cast<P>(c.range(1, 3))); break;
            case 1: q = q.shrink_to_contained_end(); break;
            case 2: q = q.shrink_to_omitted_end(); break;
            case 3: q.advance(); break;
            default: q = q.shift_forward(); break;
        }
    }
    if (c.chance(0.15)) { q = DyadicInterval(q.multiplier(), q.power(), rt(c)); }
    return q;
}

void pairs(Case& c)
{
    DyadicInterval d(static_cast<K>(c.range(-3000, 3000)), static_cast<P>(c.range(-5, 12)), rt(c));
    std::vector<DyadicInterval> pool{d};
    for (int i = 0; i < 6; ++i) { pool.push_back(c.chance(0.85) ? near(c, c.of(pool)) : DyadicInterval(rk(c), static_cast<P>(rn(c)), rt(c))); }
    // the ends must be doubles for the operations of Interval to be exact
    pool.erase(std::remove_if(pool.begin(), pool.end(), [](const DyadicInterval& q) { return big(q.multiplier(), 52); }), pool.end());
    std::string all;
    for (auto& x : pool) { all += show(x) + " "; }
    c.describe(all);
    for (auto& x : pool) {
        Set a = setof(x);
        for (auto& y : pool) {
            Set b = setof(y);
            bool same = a.t == b.t, inside = a.lo <= b.lo && b.hi <= a.hi;
            auto say = [&] { return cat(show(x), " and ", show(y)); };
            if (same) {
                c.check(x.contains_dyadic(y) == inside, "di.contains_dyadic", say);
                bool before = a.inc() == b.inc() ? x.power() < y.power() : clop(a.t) ? a.inc() < b.inc() : a.inc() > b.inc();
                c.check((x < y) == before, "di.less", say);
                c.check((x == y) == (a == b) && (x != y) == !(a == b), "di.equal", say);
                c.check(x.contains(y) == inside, "di.contains", say);
            } else {
                c.check(!x.contains_dyadic(y), "di.contains_dyadic_types", say);
                c.check(!(x < y), "di.less_types", say);
                c.check(x != y && !(x == y), "di.equal_types", say);
                bool in = clop(a.t) ? a.lo <= b.lo && b.hi < a.hi : a.lo < b.lo && b.hi <= a.hi;
                c.check(x.contains(y) == in, "di.contains_types", say);
            }
            bool meet = std::max(a.lo, b.lo) < std::min(a.hi, b.hi) || (a.hi == b.lo && !clop(a.t) && clop(b.t)) || (b.hi == a.lo && !clop(b.t) && clop(a.t));
            c.check(x.intersects_with(y) == meet, "di.intersects", say);
            c.check(x.is_associated(y) == a.has(b.inc()), "di.associated", say);
        }
    }
    // the ordering sorts the cells of one level from their included ends
    std::vector<DyadicInterval> row;
    for (auto& x : pool) {
        if (x.type() == d.type()) { row.push_back(x); }
    }
    std::sort(row.begin(), row.end());
    for (std::size_t i = 0; i + 1 < row.size(); ++i) {
        c.check(!(row[i + 1] < row[i]), "di.sorted", [&] { return cat(show(row[i]), " before ", show(row[i + 1])); });
    }
}

double rp(Case& c)
{
    switch (c.below(6)) {
        case 0: return static_cast<double>(c.range(-5, 5));
        case 1: return static_cast<double>(c.range(-64, 64)) / 16;
        case 2: return c.unit() * 10 - 5;
        case 3: return std::nextafter(static_cast<double>(c.range(-32, 32)) / 8 + 0.0625, c.chance(0.5) ? HUGE_VAL : -HUGE_VAL);
        case 4: return (c.unit() - 0.5) * 1e-3;
        default: return static_cast<double>(c.range(-300, 300)) / 7;
    }
}

void from_real(Case& c)
{
    for (int i = 0; i < 12; ++i) {
        double x = c.chance(0.8) ? rp(c) : std::ldexp(c.unit() - 0.5, static_cast<int>(c.range(-60, 60)));
        int n = c.chance(0.7) ? static_cast<int>(c.range(-4, 20)) : static_cast<int>(c.range(-40, 90));
        IntervalType t = rt(c);
        c.describe(cat("cell of ", x, " at ", n, tn(t)), i > 0);
        Z len = val(1, n), v = val(x), k = v / len;
        if (clop(t) && k * len > v) { --k; }
        if (!clop(t) && k * len < v) { ++k; }
        if (boost::multiprecision::abs(k) > (Z(1) << 62)) {
            if (boost::multiprecision::abs(k) > (Z(1) << 63)) { c.must_throw("di.far", [&] { DyadicInterval d(x, static_cast<P>(n), t); }); }
            continue;
        }
        DyadicInterval d(x, static_cast<P>(n), t);
        Set s{(clop(t) ? k : Z(k - 1)) * len, (clop(t) ? Z(k + 1) : k) * len, t};
        readable(c, d, s, n, "from real");
        c.check(s.has(v), "di.model");
    }
}

void tile(Case& c)
{
    IntervalType t = rt(c), it = rt(c);
    double a = rp(c), b = rp(c);
    P tol = static_cast<P>(c.range(-3, 12));
    std::vector<DyadicInterval> got;
    Z lo, hi;
    if (c.chance(0.3)) {
        DyadicInterval d(static_cast<K>(c.range(-300, 300)), static_cast<P>(c.range(-3, 9)), it);
        c.describe(cat("dissect ", show(d), " at ", tol, tn(t)));
        lo = val(d.dinf());
        hi = val(d.dsup());
        got = to_dyadic_intervals(d, tol, t);
    } else {
        RealInterval r(a, b, it);
        c.describe(cat("dissect ", r, " at ", tol, tn(t)));
        lo = val(std::min(a, b));
        hi = val(std::max(a, b));
        got = clop(t) && c.chance(0.5) ? to_dyadic_intervals(r, tol) : to_dyadic_intervals(r, tol, t);
    }
    Z g = val(1, tol);
    auto round = [&](const Z& v) {
        Z k = v / g;
        if (clop(t) && k * g > v) { --k; }
        if (!clop(t) && k * g < v) { ++k; }
        return k;
    };
    Z x = round(lo), end = round(hi);
    // from the left, each time the longest aligned cell that fits
    std::vector<Set> want;
    while (x < end) {
        Z len = 1;
        while (x % (len * 2) == 0 && x + len * 2 <= end) { len *= 2; }
        want.push_back({x * g, (x + len) * g, t});
        x += len;
    }
    auto say = [&] {
        std::string r = "gives ";
        for (auto& q : got) { r += show(q) + " "; }
        r += "not ";
        for (auto& q : want) { r += show(q) + " "; }
        return r;
    };
    c.check(got.size() == want.size(), "tile.count", say);
    for (std::size_t i = 0; i < got.size() && i < want.size(); ++i) {
        c.check(setof(got[i]) == want[i], "tile.cell", say);
        c.check(got[i].power() <= tol, "tile.length", say);
    }
}

struct Item {
    std::shared_ptr<Interval> p;
    Set s;
};
std::string show(const Item& i) { return show(i.s); }

void sets(Case& c)
{
    std::vector<double> ends;
    for (int i = 0; i < 4; ++i) { ends.push_back(rp(c)); }
    ends.push_back(ends[0] == 0 ? 1e-9 : std::nextafter(ends[0], HUGE_VAL));
    std::vector<Item> pool;
    std::string all;
    for (int i = 0; i < 6; ++i) {
        IntervalType t = rt(c);
        Item it;
        double a = c.of(ends), b = c.of(ends);
        switch (c.below(5)) {
            case 0: {
                DyadicInterval d(static_cast<K>(c.range(-40, 40)), static_cast<P>(c.range(-1, 4)), t);
                it = {std::make_shared<DyadicInterval>(d), setof(d)};
                break;
            }
            case 1: {
                Partition q(RealInterval(a, b, t));
                if (a != b && (a + b) / 2 != a && (a + b) / 2 != b) { q.insert_intermediate((a + b) / 2); }
                it = {std::make_shared<Partition>(q), Set{val(std::min(a, b)), val(std::max(a, b)), t}};
                break;
            }
            case 2: {
                RealInterval q = t == IntervalType::Clopen ? RealInterval(a, b) : RealInterval(a, b, t);
                RealInterval z(c.range(0, 9), c.range(0, 9), rt(c));
                z = q;
                it = {std::make_shared<RealInterval>(static_cast<const Interval&>(z)), Set{val(std::min(a, b)), val(std::max(a, b)), t}};
                break;
            }
            case 3: {
                IntervalType o = rt(c);
                it = {std::make_shared<RealInterval>(RealInterval(a, b, o), t), Set{val(std::min(a, b)), val(std::max(a, b)), t}};
                break;
            }
            default: it = {std::make_shared<RealInterval>(a, b, t), Set{val(std::min(a, b)), val(std::max(a, b)), t}};
        }
        all += show(it) + " ";
        pool.push_back(it);
    }
    c.describe(all);
    for (auto& x : pool) {
        const Set& a = x.s;
        c.check(val(x.p->inf()) == a.lo && val(x.p->sup()) == a.hi && x.p->type() == a.t, "set.ends", [&] { return show(x); });
        c.check(val(x.p->included_end()) == a.inc() && val(x.p->excluded_end()) == a.exc(), "set.included", [&] { return show(x); });
        for (double e : ends) { c.check(x.p->contains_point(e) == a.has(val(e)), "set.contains_point", [&] { return cat(show(x), " and ", e); }); }
        for (auto& y : pool) {
            const Set& b = y.s;
            auto say = [&] { return cat(show(x), " and ", show(y)); };
            c.check((*x.p == *y.p) == (a == b) && (*x.p != *y.p) == !(a == b), "set.equal", say);
            bool meet = std::max(a.lo, b.lo) < std::min(a.hi, b.hi)
                    || (!a.empty() && !b.empty() && ((a.hi == b.lo && !clop(a.t) && clop(b.t)) || (b.hi == a.lo && !clop(b.t) && clop(a.t))));
            c.check(x.p->intersects_with(*y.p) == meet, "set.intersects", say);
            if (!a.empty() && !b.empty()) {
                bool in = a.t == b.t ? a.lo <= b.lo && b.hi <= a.hi : clop(a.t) ? a.lo <= b.lo && b.hi < a.hi : a.lo < b.lo && b.hi <= a.hi;
                c.check(x.p->contains(*y.p) == in, "set.contains", say);
            }
            c.check(x.p->is_associated(*y.p) == a.has(b.inc()), "set.associated", say);
            RealInterval u = interval_union(*x.p, *y.p);
            c.check(val(u.inf()) == std::min(a.lo, b.lo) && val(u.sup()) == std::max(a.hi, b.hi), "set.union", [&] { return cat(say(), " union ", u); });
            if (a.t == b.t) { c.check(u.type() == a.t, "set.union_type", [&] { return cat(say(), " union ", u); }); }
            Z lo = std::max(a.lo, b.lo), hi = std::min(a.hi, b.hi);
            RealInterval m = intersection(*x.p, *y.p);
            auto tell = [&] { return cat(say(), " intersection ", m); };
            if (lo < hi) {
                c.check(val(m.inf()) == lo && val(m.sup()) == hi, "set.intersection", tell);
                if (a.t == b.t) { c.check(m.type() == a.t, "set.intersection_type", tell); }
                if (a.t == b.t) {
                    for (double e : ends) { c.check(m.contains_point(e) == (a.has(val(e)) && b.has(val(e))), "set.intersection_point", tell); }
                }
            } else if (a.t == b.t) {
                c.check(m.inf() == m.sup(), "intersection.disjoint", tell);
            }
        }
    }
    double q = c.of(ends);
    IntervalType t = rt(c);
    c.check(RealInterval::unbounded().contains_point(q), "set.unbounded");
    c.check(RealInterval::left_unbounded(q, t).contains_point(q) == !clop(t) && RealInterval::left_unbounded(q, t).contains_point(q - 1), "set.left_unbounded");
    c.check(RealInterval::right_unbounded(q, t).contains_point(q) == clop(t) && RealInterval::right_unbounded(q, t).contains_point(q + 1), "set.right_unbounded");
}

}// namespace

int main(int argc, char** argv)
{
    vp::leak_every = 500;
    return vp::run(argc, argv, {{"native_numbers", numbers}, {"native_walk", walk}, {"native_pairs", pairs}, {"native_cells", from_real}, {"native_tile", tile}, {"native_sets", sets}});
}
