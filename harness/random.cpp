// builds: asan
// C28: reproducibility and law of the random generators and of Brownian streams.
#include "vp.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/scalars/random.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/streams/brownian_stream.h>
using namespace rpy;
using namespace rpy::scalars;
using vp::Case;
using vp::cat;

namespace {

using Rng = std::unique_ptr<RandomGenerator>;
using Words = std::vector<seed_int_t>;

const ScalarType* type_of(int k)
{
    return k == 0 ? *ScalarType::of<double>() : *ScalarType::of<float>();
}

std::vector<double> values(const ScalarArray& a, int k)
{
    std::vector<double> r;
    if (k == 0) {
        for (double x : a.as_slice<double>()) { r.push_back(x); }
    } else {
        for (float x : a.as_slice<float>()) { r.push_back(x); }
    }
    return r;
}

ScalarArray arr(const std::vector<double>& v, const ScalarType* t, int k)
{
    ScalarArray a(t, v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (k == 0) {
            a.as_mut_slice<double>()[i] = v[i];
        } else {
            a.as_mut_slice<float>()[i] = static_cast<float>(v[i]);
        }
    }
    return a;
}

Rng make(const ScalarType* t, const std::string& name, Words w)
{
    return t->get_rng(name, Slice<seed_int_t>(w.data(), w.size()));
}

struct Req {
    bool normal;
    std::vector<double> a, b;
    dimn_t count;
};

std::vector<double> ask(const RandomGenerator& g, const Req& r, const ScalarType* t, int k)
{
    if (r.normal) { return values(g.normal_random(Scalar(t, r.a[0]), Scalar(t, r.b[0]), r.count), k); }
    return values(g.uniform_random_scalar(arr(r.a, t, k), arr(r.b, t, k), r.count), k);
}

Req request(Case& c, bool normal, dimn_t count)
{
    Req r{normal, {}, {}, count};
    long n = normal ? 1 : c.range(1, 4);
    for (long i = 0; i < n; ++i) {
        double lo = c.chance(.3) ? 0 : std::ldexp(static_cast<double>(c.range(-4000, 4000)), static_cast<int>(c.range(-12, 2)));
        double w = std::ldexp(static_cast<double>(c.range(1, 4000)), static_cast<int>(c.range(-12, 0)));
        r.a.push_back(lo);
        r.b.push_back(normal ? w : lo + w);
    }
    return r;
}

Words seed_words(Case& c)
{
    Words w;
    for (long i = c.range(1, 3); i > 0; --i) {
        w.push_back(c.chance(.3) ? static_cast<seed_int_t>(c.range(0, 5)) : c.eng());
    }
    return w;
}

std::string show(const std::vector<double>& v)
{
    std::string s;
    for (std::size_t i = 0; i < v.size() && i < 5; ++i) { s += cat(v[i], ' '); }
    return s;
}

void repro(Case& c)
{
    int k = static_cast<int>(c.below(2));
    const auto* t = type_of(k);
    std::string name = c.pick<std::string>({"", "mt19937", "pcg"});
    Words w = seed_words(c);
    c.describe(cat(k == 0 ? "double " : "float ", name, " seed ", w[0], " words ", w.size()));
    auto g = make(t, name, w), h = make(t, name, w);
    c.check(g->get_type() == h->get_type() && (name.empty() || g->get_type() == name), "generator.name");
    c.check(g->get_state() == h->get_state(), "seed.state");
    auto sd = g->get_seed();
    c.check(!sd.empty() && sd[0] == w[0], "seed.read");
    // a history of requests
    std::vector<Req> hist;
    for (long i = c.range(1, 5); i > 0; --i) { hist.push_back(request(c, c.chance(.5), static_cast<dimn_t>(c.range(1, 12)))); }
    std::vector<std::vector<double>> out;
    std::vector<std::string> states{g->get_state()};
    for (auto& r : hist) {
        out.push_back(ask(*g, r, t, k));
        c.check(out.back().size() == r.count * r.a.size(), "request.size");
        if (r.count > 0) { c.check(g->get_state() != states.back(), "state.unchanged.after.draw"); }
        else { c.check(g->get_state() == states.back(), "state.changed.by.nothing"); }
        states.push_back(g->get_state());
    }
    auto replay = [&](RandomGenerator& x, std::size_t from, const char* key) {
        for (std::size_t i = from; i < hist.size(); ++i) {
            auto got = ask(x, hist[i], t, k);
            c.check(got == out[i], key, [&] { return cat("request ", i, " gave ", show(got), "not ", show(out[i])); });
            c.check(x.get_state() == states[i + 1], std::string(key) + ".state", [&] { return cat("request ", i); });
        }
    };
    replay(*h, 0, "same.seed");
    // reseeding after any history starts again
    h->set_seed(Slice<seed_int_t>(w.data(), w.size()));
    c.check(h->get_seed()[0] == w[0], "reseed.read");
    replay(*h, 0, "reseed");
    Words w2 = seed_words(c);
    auto other = make(t, name, w2);
    if (c.chance(.5)) { ask(*other, request(c, c.chance(.5), 7), t, k); }
    other->set_seed(Slice<seed_int_t>(w.data(), w.size()));
    replay(*other, 0, "reseed.other");
    // a state string restores the state in any generator of the same kind
    std::size_t at = static_cast<std::size_t>(c.below(static_cast<long>(states.size())));
    auto third = make(t, name, seed_words(c));
    if (c.chance(.5)) { ask(*third, request(c, c.chance(.5), 3), t, k); }
    third->set_state(states[at]);
    c.check(third->get_state() == states[at], "state.restored");
    replay(*third, at, "state.replay");
    // different first words give different sequences
    if (w2[0] != w[0]) {
        auto x = make(t, name, w2), y = make(t, name, w);
        Req r{false, {0}, {1}, 4};
        c.check(ask(*x, r, t, k) != ask(*y, r, t, k), "seeds.collide", [&] { return cat(w[0], " and ", w2[0]); });
    }
    Words w3 = w;
    w3[0] ^= seed_int_t(1) << c.below(64);
    auto x = make(t, name, w3), y = make(t, name, w);
    Req r{false, {0}, {1}, 4};
    c.check(ask(*x, r, t, k) != ask(*y, r, t, k), "seeds.collide.bit", [&] { return cat(w[0], " and ", w3[0]); });
    x->set_seed(Slice<seed_int_t>(w3.data(), w3.size()));
    y->set_seed(Slice<seed_int_t>(w.data(), w.size()));
    c.check(ask(*x, r, t, k) != ask(*y, r, t, k), "reseeds.collide.bit", [&] { return cat(w[0], " and ", w3[0]); });
}

void split(Case& c)
{
    int k = static_cast<int>(c.below(2));
    const auto* t = type_of(k);
    std::string name = c.pick<std::string>({"mt19937", "pcg"});
    Words w = seed_words(c);
    bool normal = c.chance(.5);
    dimn_t n = static_cast<dimn_t>(c.range(2, 60));
    if (normal) { n += n % 2; }
    auto g = make(t, name, w), h = make(t, name, w);
    Req r = request(c, normal, n);
    c.describe(cat(name, normal ? " normal " : " uniform ", n, " in parts, type ", k, " seed ", w[0]));
    auto whole = ask(*g, r, t, k);
    std::vector<double> parts;
    dimn_t done = 0;
    while (done < n) {
        dimn_t m = static_cast<dimn_t>(c.range(1, static_cast<long>(n - done)));
        if (normal) { m += m % 2; }
        r.count = m;
        auto p = ask(*h, r, t, k);
        parts.insert(parts.end(), p.begin(), p.end());
        done += m;
    }
    c.check(parts == whole, "split", [&] { return cat("whole ", show(whole), "parts ", show(parts)); });
    c.check(h->get_state() == g->get_state(), "split.state");
    // a longer request starts with the numbers of a shorter one
    h->set_seed(Slice<seed_int_t>(w.data(), w.size()));
    r.count = n + static_cast<dimn_t>(c.range(1, 9));
    auto longer = ask(*h, r, t, k);
    c.check(std::equal(whole.begin(), whole.end(), longer.begin()), "prefix");
    c.must_throw("bounds.mismatch", [&] {
        g->uniform_random_scalar(arr({0, 0}, t, k), arr({1}, t, k), 3);
    });
    if (c.chance(.2)) {
        c.must_throw("generator.unknown", [&] { make(t, "no such generator", w); });
        c.must_throw("reseed.empty", [&] { g->set_seed(Slice<seed_int_t>()); });
    }
}

// The bounds below are six standard deviations of the statistic or more.
void near(Case& c, const char* key, double got, double want, double sd, const std::string& m = "")
{
    c.check(std::fabs(got - want) <= 6.5 * sd, key, [&] { return cat(m, " got ", got, " want ", want, " sd ", sd); });
}

void moments(Case& c, const std::vector<double>& z, bool normal, const std::string& m)
{
    // z: standard normal, or uniform on [0,1)
    double n = static_cast<double>(z.size());
    double s1 = 0, s2 = 0, s3 = 0, s4 = 0, lag = 0;
    double mu = normal ? 0 : .5, var = normal ? 1 : 1. / 12;
    for (std::size_t i = 0; i < z.size(); ++i) {
        double y = (z[i] - mu) / std::sqrt(var);
        s1 += y;
        s2 += y * y;
        s3 += y * y * y;
        s4 += y * y * y * y;
        if (i > 0) { lag += y * (z[i - 1] - mu) / std::sqrt(var); }
    }
    double k4 = normal ? 3 : 1.8, k6 = normal ? 15 : 27. / 7, k8 = normal ? 105 : 9;
    near(c, "law.mean", s1 / n, 0, 1 / std::sqrt(n), m);
    near(c, "law.variance", s2 / n, 1, std::sqrt((k4 - 1) / n), m);
    near(c, "law.third", s3 / n, 0, std::sqrt(k6 / n), m);
    near(c, "law.fourth", s4 / n, k4, std::sqrt((k8 - k4 * k4) / n), m);
    near(c, "law.lag", lag / n, 0, 1 / std::sqrt(n), m);
    // Kolmogorov-Smirnov distance, P(D > 3.4/sqrt n) < 2e-10
    std::vector<double> s(z);
    std::sort(s.begin(), s.end());
    double d = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
        double F = normal ? .5 * std::erfc(-s[i] / std::sqrt(2.)) : s[i];
        d = std::max({d, F - static_cast<double>(i) / n, static_cast<double>(i + 1) / n - F});
    }
    c.check(d * std::sqrt(n) < 3.6, "law.distribution", [&] { return cat(m, " distance ", d, " n ", n); });
}

void uniform_law(Case& c)
{
    int k = static_cast<int>(c.below(2));
    const auto* t = type_of(k);
    std::string name = c.pick<std::string>({"mt19937", "pcg"});
    auto g = make(t, name, seed_words(c));
    Req r = request(c, false, 4000);
    // ranges wide against their rounding
    for (std::size_t i = 0; i < r.a.size(); ++i) {
        if (r.b[i] - r.a[i] < 1e-3 * std::fabs(r.a[i])) { r.b[i] = r.a[i] + 1 + std::fabs(r.a[i]) / 8; }
    }
    c.describe(cat(name, " type ", k, " uniform over ", show(r.a), "to ", show(r.b)));
    dimn_t d = r.a.size();
    std::vector<std::vector<double>> z(d);
    for (long part = c.range(1, 3); part > 0; --part) {
        auto v = ask(*g, r, t, k);
        if (!c.check(v.size() == 4000 * d, "uniform.size")) { return; }
        for (std::size_t i = 0; i < v.size(); ++i) {
            double lo = r.a[i % d], hi = r.b[i % d];
            if (k == 1) { lo = static_cast<float>(lo); hi = static_cast<float>(hi); }
            // the end point itself can only come from rounding
            if (!(v[i] >= lo && v[i] <= hi)) { c.fail("uniform.range", cat(v[i], " outside ", lo, " ", hi)); }
            z[i % d].push_back((v[i] - lo) / (hi - lo));
        }
    }
    for (dimn_t i = 0; i < d; ++i) {
        moments(c, z[i], false, cat("coordinate ", i));
        auto hit = std::count(z[i].begin(), z[i].end(), 1.0);
        c.check(hit <= 3, "uniform.endpoint", [&] { return cat(hit, " draws equal the excluded end"); });
        for (dimn_t j = 0; j < i; ++j) {
            double s = 0;
            for (std::size_t q = 0; q < z[i].size(); ++q) { s += 12 * (z[i][q] - .5) * (z[j][q] - .5); }
            near(c, "law.independent", s / static_cast<double>(z[i].size()), 0, 1 / std::sqrt(static_cast<double>(z[i].size())));
        }
    }
}

void normal_law(Case& c)
{
    int k = static_cast<int>(c.below(2));
    const auto* t = type_of(k);
    std::string name = c.pick<std::string>({"mt19937", "pcg"});
    auto g = make(t, name, seed_words(c));
    Req r = request(c, true, 4000);
    if (r.b[0] < 1e-3 * std::fabs(r.a[0])) { r.b[0] = 1 + std::fabs(r.a[0]) / 8; }
    c.describe(cat(name, " type ", k, " normal mean ", r.a[0], " deviation ", r.b[0]));
    double mu = r.a[0], sd = r.b[0];
    if (k == 1) { mu = static_cast<float>(mu); sd = static_cast<float>(sd); }
    std::vector<double> z;
    bool small = c.chance(.3);
    while (z.size() < 8000) {
        r.count = small ? static_cast<dimn_t>(c.range(1, 9)) : 4000;
        for (double x : ask(*g, r, t, k)) { z.push_back((x - mu) / sd); }
    }
    moments(c, z, true, small ? "many small requests" : "large requests");
}

class Bm : public streams::BrownianStream
{
public:
    using BrownianStream::BrownianStream;
    using BrownianStream::log_signature;
};

std::unique_ptr<Bm> brownian(const std::string& name, Words w, deg_t width, const algebra::context_pointer& ctx, const ScalarType* t)
{
    streams::StreamMetadata md;
    md.width = width;
    md.effective_support = intervals::RealInterval(-64, 64);
    md.default_context = ctx;
    md.data_scalar_type = t;
    md.cached_vector_type = algebra::VectorType::Dense;
    md.default_resolution = 0;
    return std::make_unique<Bm>(make(t, name, std::move(w)), std::move(md));
}

struct Query {
    dyadic_multiplier_t k;
    dyadic_depth_t n;
    resolution_t res;
};

std::vector<double> letters(const algebra::Lie& l, deg_t width)
{
    std::vector<double> r(static_cast<std::size_t>(width), 0.);
    for (deg_t i = 1; i <= width; ++i) { r[static_cast<std::size_t>(i - 1)] = scalar_cast<double>(l[static_cast<key_type>(i)]); }
    return r;
}

// Increments over disjoint grid intervals, seen over many seeds, after the same queries.
void brownian_law(Case& c)
{
    int kind = c.chance(.8) ? 0 : 1;
    const auto* t = type_of(kind);
    deg_t width = static_cast<deg_t>(c.range(1, 3));
    auto ctx = algebra::get_context(width, static_cast<deg_t>(c.range(1, 2)), t, {});
    std::string name = c.pick<std::string>({"mt19937", "pcg"});
    std::vector<Query> script;
    for (long i = c.range(1, 5); i > 0; --i) {
        auto n = static_cast<dyadic_depth_t>(c.range(-2, 4));
        long span = 4L << (n < 0 ? 0 : n);
        script.push_back({static_cast<dyadic_multiplier_t>(c.range(-span, span - 1)), n,
                          static_cast<resolution_t>(std::min<long>(5, n + c.range(0, 3)))});
    }
    // the intervals looked at in the end: a run of neighbours at some level
    auto lvl = static_cast<dyadic_depth_t>(c.range(-1, 4));
    long first = c.range(-8, 5);
    long m = c.range(2, 4);
    bool backwards = c.chance(.5);
    std::string d = cat(name, " width ", width, " type ", kind, " queries ");
    for (auto& q : script) { d += cat("(", q.k, ",", q.n, ")@", q.res, " "); }
    c.describe(d + cat("; increments ", first, "..", first + m - 1, " at level ", lvl));
    const long N = 400;
    std::vector<std::vector<double>> z(static_cast<std::size_t>(m) * static_cast<std::size_t>(width));
    double sd = std::sqrt(std::ldexp(1., -lvl));
    Words base = seed_words(c);
    auto once = [&](Words w) {
        auto b = brownian(name, std::move(w), width, ctx, t);
        for (auto& q : script) {
            auto v = b->log_signature(intervals::DyadicInterval(q.k, q.n), q.res, *ctx);
            (void) v;
        }
        std::vector<double> r(static_cast<std::size_t>(m) * static_cast<std::size_t>(width));
        for (long i = 0; i < m; ++i) {
            long j = backwards ? m - 1 - i : i;
            auto l = letters(b->log_signature(intervals::DyadicInterval(static_cast<dyadic_multiplier_t>(first + j), lvl), static_cast<resolution_t>(lvl), *ctx), width);
            for (deg_t e = 0; e < width; ++e) { r[static_cast<std::size_t>(j * width + e)] = l[static_cast<std::size_t>(e)] / sd; }
        }
        return r;
    };
    std::vector<double> zero;
    for (long s = 0; s < N; ++s) {
        Words w{base[0] + static_cast<seed_int_t>(s) * 0x9E3779B97F4A7C15ULL};
        auto r = once(w);
        if (s == 0) {
            zero = r;
            auto again = once(w);
            c.check(again == r, "brownian.seed", [&] { return cat("the same seed and queries gave ", show(r), "then ", show(again)); });
        }
        for (std::size_t i = 0; i < r.size(); ++i) { z[i].push_back(r[i]); }
    }
    double n = N;
    for (std::size_t i = 0; i < z.size(); ++i) {
        double s1 = 0, s2 = 0, s4 = 0;
        for (double x : z[i]) { s1 += x; s2 += x * x; s4 += x * x * x * x; }
        near(c, "brownian.mean", s1 / n, 0, 1 / std::sqrt(n), cat("increment ", i));
        near(c, "brownian.variance", s2 / n, 1, std::sqrt(2 / n), cat("increment ", i));
        near(c, "brownian.fourth", s4 / n, 3, std::sqrt(96 / n) * 1.6, cat("increment ", i));
        for (std::size_t j = 0; j < i; ++j) {
            double s = 0;
            for (std::size_t q = 0; q < z[i].size(); ++q) { s += z[i][q] * z[j][q]; }
            near(c, "brownian.independent", s / n, 0, 1 / std::sqrt(n), cat("increments ", j, " and ", i));
        }
    }
    (void) zero;
}

}// namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv, {{"repro", repro}, {"split", split}, {"uniform_law", uniform_law}, {"normal_law", normal_law}, {"brownian_law", brownian_law}});
}
