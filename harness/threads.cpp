// builds: tsan
// C25: many threads on shared contexts, bases, elements and streams.  Every case
// runs in fresh processes (so that all tables are cold): once with the threads'
// work one after the other, once at the same time under ThreadSanitizer.
#include "vp.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <fcntl.h>
#include <memory>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/algebra/lie_basis.h>
#include <roughpy/algebra/shuffle_tensor.h>
#include <roughpy/algebra/tensor_basis.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/scalars/random.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/streams/stream_construction_helper.h>
#include <roughpy/streams/tick_stream.h>
#include <roughpy/streams/value_stream.h>
using namespace rpy;
using namespace rpy::algebra;
using namespace rpy::streams;
using intervals::RealInterval;
using scalars::Scalar;
using scalars::ScalarType;
using vp::Case;
using vp::cat;

namespace {

using Eng = std::mt19937_64;

struct R {
    Eng e;
    long below(long n) { return n <= 1 ? 0 : static_cast<long>(e() % static_cast<std::uint64_t>(n)); }
    long range(long a, long b) { return a + below(b - a + 1); }
    bool chance(double p) { return static_cast<double>(e() >> 11) / 9007199254740992.0 < p; }
};

const ScalarType* type_of(int k)
{
    switch (k) {
        case 0: return *ScalarType::of<double>();
        case 1: return *ScalarType::of<float>();
        case 2: return *ScalarType::of<scalars::rational_scalar_type>();
        default: return *ScalarType::of<scalars::rational_poly_scalar>();
    }
}

struct Cfg {
    deg_t w, d;
    int kind;
};

context_pointer context(const Cfg& g) { return get_context(g.w, g.d, type_of(g.kind), {}); }

template <typename A>
std::string text(const A& a, int kind)
{
    std::string r;
    for (auto it = a.begin(); it != a.end(); ++it) {
        char b[64];
        std::string v;
        if (kind < 2) {
            double x = scalars::scalar_cast<double>(it->value());
            if (x == 0) { continue; }
            std::snprintf(b, sizeof b, "%.17g", x);
            v = b;
        } else {
            if (it->value().is_zero()) { continue; }
            v = cat(it->value());
        }
        r += cat(it->key(), ":", v, " ");
    }
    return r;
}

Scalar coef(R& r, const Cfg& g) { return Scalar(type_of(g.kind), static_cast<int>(r.range(-4, 4)) * 2 + 1, 1 << r.below(3)); }

VectorType vt(R& r) { return r.chance(.5) ? VectorType::Dense : VectorType::Sparse; }

Lie rlie(R& r, const Cfg& g, const context_pointer& cx, int n)
{
    auto l = cx->zero_lie(vt(r));
    auto size = static_cast<long>(cx->lie_size(g.d));
    for (int i = 0; i < n; ++i) { l[static_cast<key_type>(1 + (r.chance(.4) ? r.below(g.w) : r.below(size)))] += coef(r, g); }
    return l;
}

template <typename T>
T rtensor(R& r, const Cfg& g, const context_pointer& cx, int n);
template <typename T>
void fill(T& t, R& r, const Cfg& g, const context_pointer& cx, int n)
{
    auto b = cx->get_tensor_basis();
    auto size = static_cast<long>(cx->tensor_size(g.d));
    for (int i = 0; i < n; ++i) {
        // some words are as deep as the context
        long k = r.chance(.5) ? r.below(size) : r.below(std::min<long>(size, 1 + g.w));
        t[b.index_to_key(static_cast<dimn_t>(k))] += coef(r, g);
    }
}
template <>
FreeTensor rtensor<FreeTensor>(R& r, const Cfg& g, const context_pointer& cx, int n)
{
    auto t = cx->zero_free_tensor(vt(r));
    fill(t, r, g, cx, n);
    return t;
}
template <>
ShuffleTensor rtensor<ShuffleTensor>(R& r, const Cfg& g, const context_pointer& cx, int n)
{
    auto t = cx->zero_shuffle_tensor(vt(r));
    fill(t, r, g, cx, n);
    return t;
}

class Bm : public BrownianStream
{
public:
    using BrownianStream::BrownianStream;
};

// What the threads share.
struct World {
    Cfg g;
    std::vector<Cfg> others;
    context_pointer cx;
    std::vector<Lie> lies;
    std::vector<FreeTensor> tensors;
    std::vector<ShuffleTensor> shuffles;
    std::vector<std::pair<std::string, std::shared_ptr<const Stream>>> streams;
    std::shared_ptr<const ValueStream<FreeTensor>> values;
    bool random_stream = false;
    resolution_t res = 4;
};

StreamMetadata meta(const World& w, R& r, RealInterval support)
{
    StreamMetadata md{w.g.w, support, w.cx, type_of(w.g.kind), vt(r), w.res, intervals::IntervalType::Clopen};
    return md;
}

std::shared_ptr<StreamSchema> schema(const World& w)
{
    return std::make_shared<StreamSchema>(w.g.w);
}

void make_streams(World& w, R& r, const std::string& which)
{
    RealInterval support(0., 4.);
    std::vector<double> at;
    for (int i = static_cast<int>(r.range(1, 6)); i > 0; --i) { at.push_back(static_cast<double>(r.below(64)) / 16.); }
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    for (char k : which) {
        if (k == 'L') {
            std::vector<pair<param_t, Lie>> data;
            for (double t : at) { data.emplace_back(t, rlie(r, w.g, w.cx, 3)); }
            w.streams.emplace_back("L", std::make_shared<Stream>(LieIncrementStream(std::move(data), meta(w, r, support), schema(w))));
        } else if (k == 'P') {
            std::vector<std::pair<RealInterval, Lie>> data;
            for (std::size_t i = 0; i + 1 < at.size() || i == 0; ++i) {
                double hi = i + 1 < at.size() ? at[i + 1] : at[i] + 1;
                data.emplace_back(RealInterval(at[i], hi), rlie(r, w.g, w.cx, 3));
            }
            w.streams.emplace_back("P", std::make_shared<Stream>(PiecewiseAbelianStream(std::move(data), meta(w, r, RealInterval(0., 5.)), schema(w))));
        } else if (k == 'T') {
            auto sch = std::make_shared<StreamSchema>();
            for (deg_t i = 0; i < w.g.w; ++i) { sch->insert_increment(std::string(1, static_cast<char>('a' + i))); }
            StreamConstructionHelper h(w.cx, sch, VectorType::Sparse);
            for (double t : at) {
                for (int j = 0; j < 2; ++j) { h.add_increment(t, static_cast<dimn_t>(r.below(w.g.w)), coef(r, w.g)); }
            }
            w.streams.emplace_back("T", std::make_shared<Stream>(TickStream(std::move(h), meta(w, r, support), w.res)));
        } else if (k == 'B' && w.g.kind < 2) {
            scalars::seed_int_t seed = static_cast<scalars::seed_int_t>(r.below(1000));
            auto g = type_of(w.g.kind)->get_rng(r.chance(.5) ? "pcg" : "mt19937", Slice<scalars::seed_int_t>(&seed, 1));
            w.streams.emplace_back("B", std::make_shared<Stream>(Bm(std::move(g), meta(w, r, support))));
            w.random_stream = true;
        }
    }
    if (!w.streams.empty()) {
        auto inc = w.streams[static_cast<std::size_t>(r.below(static_cast<long>(w.streams.size())))];
        if (inc.first != "B") {
            w.values = make_simple_tensor_valued_stream(inc.second->impl(), rtensor<FreeTensor>(r, w.g, w.cx, 3), RealInterval(0., 4.));
        }
    }
}

// One step of one thread: (what, result).  Everything is a function of r.
using Step = std::pair<std::string, std::string>;

RealInterval interval(R& r, resolution_t res)
{
    long n = 4L << res;
    long a = r.below(n), b = r.range(a + 1, n);
    if (r.chance(.1)) { a = 0, b = n; }
    return {static_cast<double>(a) / (1L << res), static_cast<double>(b) / (1L << res)};
}

template <typename V>
const auto& one(R& r, const V& v)
{
    return v[static_cast<std::size_t>(r.below(static_cast<long>(v.size())))];
}

Step step(World& w, R& r, const std::string& ops)
{
    const auto& g = w.g;
    char op = ops[static_cast<std::size_t>(r.below(static_cast<long>(ops.size())))];
    switch (op) {
        case 'c': {// look up some context of this or another configuration, new or not
            auto h = r.chance(.3) ? g : one(r, w.others);
            auto a = context(h);
            auto b = context(h);
            bool ok = a == b && a->width() == h.w && a->depth() == h.d && a->ctype() == type_of(h.kind);
            if (r.chance(.5)) {
                auto n = a->get_alike(h.d + 1);
                ok = ok && n->depth() == h.d + 1 && n == n->get_alike(h.d + 1);
            }
            return {"context", cat(ok, " ", a->lie_size(h.d), " ", a->tensor_size(h.d))};
        }
        case 'm': {// brackets of fresh operands
            auto a = rlie(r, g, w.cx, 3), b = rlie(r, g, w.cx, 3);
            return {"bracket", text(a.mul(b), g.kind)};
        }
        case 'M': return {"shared bracket", text(one(r, w.lies).mul(one(r, w.lies)), g.kind)};
        case 'o': {// the same operands in another configuration of the same width
            auto h = one(r, w.others);
            auto cx = context(h);
            auto a = rlie(r, h, cx, 3), b = rlie(r, h, cx, 3);
            return {"other bracket", text(a.mul(b), h.kind) + "|" + text(cx->lie_to_tensor(a), h.kind)};
        }
        case 'x': return {"expand", text(w.cx->lie_to_tensor(one(r, w.lies)), g.kind)};
        case 'y': {
            auto l = rlie(r, g, w.cx, 4);
            auto t = w.cx->lie_to_tensor(l);
            return {"expand back", text(t, g.kind) + "|" + text(w.cx->tensor_to_lie(t), g.kind)};
        }
        case 'b': {
            std::vector<Lie> v{one(r, w.lies), rlie(r, g, w.cx, 2), one(r, w.lies)};
            return {"cbh", text(w.cx->cbh(v, vt(r)), g.kind)};
        }
        case 't': {
            const auto &a = one(r, w.tensors), &b = one(r, w.tensors);
            switch (r.below(4)) {
                case 0: return {"product", text(a.mul(b), g.kind)};
                case 1: return {"exp", text(w.cx->lie_to_tensor(one(r, w.lies)).exp(), g.kind)};
                case 2: return {"antipode", text(a.antipode(), g.kind)};
                default: return {"sum", text(a.add(b).sub(a), g.kind)};
            }
        }
        case 's': {
            const auto &a = one(r, w.shuffles), &b = one(r, w.shuffles);
            return {"shuffle", text(a.mul(b), g.kind)};
        }
        case 'S': {
            auto a = rtensor<ShuffleTensor>(r, g, w.cx, 3);
            auto b = rtensor<ShuffleTensor>(r, g, w.cx, 3);
            return {"shuffle new", text(a.mul(b), g.kind)};
        }
        case 'h': {
            const ShuffleTensorInterface* a = &*one(r, w.shuffles);
            const ShuffleTensorInterface* b = &*one(r, w.shuffles);
            auto half = r.chance(.6);
            if (half) {
                ShuffleTensor p(w.cx->half_shuffle_multiply(a, b));
                return {"half shuffle", text(p, g.kind)};
            }
            const FreeTensorInterface* x = &*one(r, w.tensors);
            ShuffleTensor p(w.cx->adjoint_to_left_multiply_by(x, b));
            return {"adjoint", text(p, g.kind)};
        }
        case 'k': {// bases
            auto lb = w.cx->get_lie_basis();
            auto tb = w.cx->get_tensor_basis();
            auto i = static_cast<dimn_t>(r.below(static_cast<long>(w.cx->lie_size(g.d))));
            auto j = static_cast<dimn_t>(r.below(static_cast<long>(w.cx->tensor_size(g.d))));
            auto lk = lb.index_to_key(i);
            auto tk = tb.index_to_key(j);
            auto p = lb.parents(lk);
            return {"basis", cat(lb.key_to_string(lk), " ", lb.key_to_index(lk), " ", lb.degree(lk), " ",
                                 p.first ? *p.first : 0, " ", p.second ? *p.second : 0, " ", tb.key_to_string(tk), " ",
                                 tb.key_to_index(tk), " ", tb.degree(tk), " ", lb.dimension(), " ", tb.dimension())};
        }
        case 'r': {// copies and readings of shared elements
            auto a = one(r, w.lies);
            auto b = one(r, w.lies);
            a = b;
            auto t = one(r, w.tensors);
            a[static_cast<key_type>(1 + r.below(g.w))] += coef(r, g);
            auto bor = one(r, w.lies).borrow();
            return {"copies", text(a, g.kind) + "|" + text(t, g.kind) + "|" + text(bor, g.kind) + cat(a == b, b == bor, a.width() ? *a.width() : -1)};
        }
        case 'v': {// conversions to and from another type of the same shape
            Cfg h = g;
            h.kind = g.kind == 3 ? 3 : static_cast<int>(r.below(3));
            auto cx = context(h);
            return {"convert", text(cx->convert(one(r, w.lies), vt(r)), h.kind) + "|" + text(cx->convert(one(r, w.tensors), vt(r)), h.kind)};
        }
        case 'q': {// stream queries
            if (w.streams.empty()) { return {"none", ""}; }
            auto n = r.below(static_cast<long>(w.streams.size()));
            const auto& s = w.streams[static_cast<std::size_t>(n)];
            auto iv = interval(r, w.res);
            // answers of random streams are compared among the threads of one run
            std::string tag = s.first == "B" ? cat("B", n) : "";
            switch (r.below(tag.empty() ? 5 : 2)) {
                case 0: {
                    auto a = s.second->log_signature(iv, w.res, *w.cx);
                    return {tag + cat("log ", iv.inf(), " ", iv.sup()), text(a, g.kind)};
                }
                case 1: {
                    auto a = s.second->signature(iv, w.res, *w.cx);
                    return {tag + cat("sig ", iv.inf(), " ", iv.sup()), text(a, g.kind)};
                }
                case 2: {
                    auto cut = s.second->restrict(interval(r, w.res));
                    return {"restricted", text(cut.log_signature(iv, w.res, *w.cx), g.kind)};
                }
                case 3: {
                    auto low = w.cx->get_alike(std::max<deg_t>(1, g.d - 1));
                    return {"other depth", text(s.second->signature(iv, w.res, *low), g.kind)};
                }
                default: {
                    auto lo = static_cast<double>(r.below(3));
                    return {"dyadic", text(s.second->log_signature(intervals::DyadicInterval(static_cast<dyadic_multiplier_t>(lo), 0), w.res, *w.cx), g.kind)};
                }
            }
        }
        case 'd': {
            if (w.streams.empty() || w.streams[0].first == "B") { return {"none", ""}; }
            auto iv = interval(r, w.res);
            auto l = rlie(r, g, w.cx, 2);
            return {"derivative", text(w.streams[0].second->signature_derivative(iv, l, w.res, *w.cx), g.kind)};
        }
        case 'w': {
            if (!w.values) { return {"none", ""}; }
            auto iv = interval(r, w.res);
            auto q = w.values->query(iv);
            return {"values", text(q->value_at(iv.inf()), g.kind) + "|" + text(w.values->value_at(iv.sup()), g.kind) + "|" + text(q->signature(iv, *w.cx), g.kind)};
        }
        default: {// scalars
            Scalar a = coef(r, g), b = coef(r, g);
            auto* t = g.kind == 3 ? type_of(3) : type_of(static_cast<int>(r.below(3)));
            scalars::ScalarArray arr(t, 3);
            arr[0] = a, arr[1] = b, arr[2] = a * b;
            auto* u = *scalars::get_type(string(t->id()));
            return {"scalars", cat(a + b, " ", a * b, " ", scalars::ScalarArray(arr)[2], " ", u == t)};
        }
    }
}

struct Script {
    std::string ops, kinds;
    int threads, steps;
    bool cold = false;// every thread makes the objects for itself, at the same time
    std::uint64_t seed;
    Cfg g;
    std::vector<Cfg> others;
};

struct Line {
    int thread, no;
    std::string what, got;
};

std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::seed_seq s{static_cast<std::uint32_t>(a), static_cast<std::uint32_t>(a >> 32), static_cast<std::uint32_t>(b)};
    std::uint32_t o[2];
    s.generate(o, o + 2);
    return (static_cast<std::uint64_t>(o[0]) << 32) | o[1];
}

void build(World& w, const Script& s)
{
    R r{Eng(mix(s.seed, 7))};
    w.g = s.g;
    w.others = s.others;
    w.cx = context(s.g);
    for (int i = 0; i < 3; ++i) {
        w.lies.push_back(rlie(r, w.g, w.cx, 3));
        w.tensors.push_back(rtensor<FreeTensor>(r, w.g, w.cx, 4));
        w.shuffles.push_back(rtensor<ShuffleTensor>(r, w.g, w.cx, 3));
    }
    make_streams(w, r, s.kinds);
}

// Runs in the child: every thread's lines, in order, to fd.
void work(const Script& s, bool together, int fd)
{
    World shared;
    if (!s.cold) { build(shared, s); }
    std::vector<std::vector<Line>> out(static_cast<std::size_t>(s.threads));
    std::atomic<int> ready{0};
    std::atomic<long> overlap{0}, active{0};
    auto run = [&](int t) {
        R r{Eng(mix(s.seed, 100 + static_cast<unsigned>(t)))};
        R jitter{Eng(mix(s.seed, 1000 + static_cast<unsigned>(t)))};
        if (together) {
            ready.fetch_add(1);
            while (ready.load() < s.threads) { sched_yield(); }
        }
        World own;
        if (s.cold) { build(own, s); }
        World& w = s.cold ? own : shared;
        for (int i = 0; i < s.steps; ++i) {
            if (together) {
                switch (jitter.below(6)) {
                    case 0: sched_yield(); break;
                    case 1: usleep(static_cast<useconds_t>(jitter.below(200))); break;
                    default: break;
                }
            }
            if (active.fetch_add(1, std::memory_order_relaxed) > 0) { overlap.fetch_add(1, std::memory_order_relaxed); }
            Step p;
            try {
                p = step(w, r, s.ops);
            } catch (const std::exception& e) {
                p = {"raised", e.what()};
            }
            active.fetch_sub(1, std::memory_order_relaxed);
            out[static_cast<std::size_t>(t)].push_back({t, i, p.first, p.second});
        }
    };
    if (together) {
        std::vector<std::thread> ts;
        for (int t = 0; t < s.threads; ++t) { ts.emplace_back(run, t); }
        for (auto& t : ts) { t.join(); }
    } else {
        for (int t = 0; t < s.threads; ++t) { run(t); }
    }
    std::string all = cat("overlap\t", overlap.load(), "\n");
    for (auto& v : out) {
        for (auto& l : v) {
            std::replace(l.got.begin(), l.got.end(), '\n', ' ');
            all += cat(l.thread, "\t", l.no, "\t", l.what, "\t", l.got, "\n");
        }
    }
    all += "end\n";
    for (std::size_t i = 0; i < all.size();) {
        auto n = ::write(fd, all.data() + i, all.size() - i);
        if (n <= 0) { break; }
        i += static_cast<std::size_t>(n);
    }
}

struct Outcome {
    int status = 0;
    bool timed_out = false;
    std::string text, err;
};

Outcome child(const Script& s, bool together)
{
    Outcome o;
    int p[2], q[2];
    if (pipe(p) != 0 || pipe(q) != 0) { throw std::runtime_error("pipe"); }
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]), close(q[0]);
        dup2(q[1], 2);
        alarm(240);
        work(s, together, p[1]);
        std::_Exit(0);
    }
    close(p[1]), close(q[1]);
    int fds[2] = {p[0], q[0]};
    std::string* to[2] = {&o.text, &o.err};
    for (int f = 0; f < 2; ++f) { fcntl(fds[f], F_SETFL, O_NONBLOCK); }
    bool open[2] = {true, true};
    while (open[0] || open[1]) {
        fd_set rs;
        FD_ZERO(&rs);
        int m = 0;
        for (int f = 0; f < 2; ++f) {
            if (open[f]) { FD_SET(fds[f], &rs), m = std::max(m, fds[f]); }
        }
        if (select(m + 1, &rs, nullptr, nullptr, nullptr) < 0) { continue; }
        for (int f = 0; f < 2; ++f) {
            if (!open[f] || !FD_ISSET(fds[f], &rs)) { continue; }
            char b[65536];
            auto n = ::read(fds[f], b, sizeof b);
            if (n > 0) { to[f]->append(b, static_cast<std::size_t>(n)); }
            if (n == 0) { open[f] = false, close(fds[f]); }
        }
    }
    waitpid(pid, &o.status, 0);
    return o;
}

std::vector<std::string> split(const std::string& s, char by)
{
    std::vector<std::string> r(1);
    for (char c : s) {
        if (c == by) {
            r.emplace_back();
        } else {
            r.back() += c;
        }
    }
    return r;
}

std::string summary(const std::string& err)
{
    std::string r;
    int n = 0;
    for (auto& l : split(err, '\n')) {
        if (l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("SUMMARY") != std::string::npos
            || l.find("#") != std::string::npos || l.find("of size") != std::string::npos) {
            if (l.find("std::") == std::string::npos && n++ < 14) { r += l.substr(0, 220) + " / "; }
        }
    }
    return r.empty() ? err.substr(0, 800) : r;
}

void compare(Case& c, const Script& s)
{
    auto alone = child(s, false);
    if (alone.status != 0) {
        c.fail("alone", cat("the work alone ended with status ", alone.status, " ", summary(alone.err), " ", c.desc));
        return;
    }
    auto both = child(s, true);
    ++c.evals;
    if (both.status != 0) {
        bool race = WIFEXITED(both.status) && WEXITSTATUS(both.status) == 66;
        bool late = WIFSIGNALED(both.status) && WTERMSIG(both.status) == SIGALRM;
        c.fail(race ? "race" : (late ? "deadlock" : "crash"), cat("status ", both.status, " ", summary(both.err), " in ", c.desc));
        return;
    }
    auto a = split(alone.text, '\n'), b = split(both.text, '\n');
    if (!c.check(a.size() == b.size() && !b.empty(), "lost", [&] { return cat(a.size(), " ", b.size(), " steps"); })) { return; }
    long overlap = std::atol(b[0].substr(8).c_str());
    c.describe(cat(overlap, " overlapping steps"), overlap > 0);
    std::map<std::string, std::string> random;
    for (std::size_t i = 1; i + 1 < a.size(); ++i) {
        auto x = split(a[i], '\t'), y = split(b[i], '\t');
        if (x.size() < 4 || y.size() < 4) { continue; }
        if (y[2][0] == 'B') {
            // random numbers are drawn in the order of the queries: only agreement can be asked for
            auto in = random.emplace(y[2], y[3]);
            c.check(x[2] == y[2] && in.first->second == y[3], "answers", [&] { return cat(y[2], ": ", in.first->second, " then ", y[3]); });
            continue;
        }
        c.check(a[i] == b[i], "differs." + y[2].substr(0, y[2].find(' ')), [&] {
            return cat("thread ", x[0], " step ", x[1], " ", x[2], ": alone ", x[3].substr(0, 300), " together ", y[3].substr(0, 300));
        });
    }
}

void configure(Case& c, Script& s, bool exact)
{
    static const std::pair<deg_t, deg_t> shapes[] = {{2, 2}, {2, 3}, {2, 4}, {2, 5}, {3, 2}, {3, 3}, {4, 2}, {3, 4}, {5, 2}};
    auto shape = shapes[c.below(9)];
    s.seed = c.eng();
    s.threads = static_cast<int>(c.pick({2, 3, 4, 6, 8}));
    s.g = {shape.first, shape.second, static_cast<int>(exact ? c.range(0, 2) : c.pick({0, 0, 0, 1, 2, 2, 3}))};
    if (s.g.kind == 3) { s.g.d = std::min<deg_t>(s.g.d, 3); }
    for (int i = 0; i < 4; ++i) {
        Cfg h = s.g;
        if (c.chance(.5)) { h.d = static_cast<deg_t>(c.range(1, 4)); }
        if (c.chance(.3)) { h.w = static_cast<deg_t>(c.range(2, 5)); h.d = static_cast<deg_t>(c.range(1, 3)); }
        h.kind = static_cast<int>(c.range(0, 2));
        s.others.push_back(h);
    }
}

void go(Case& c, Script& s, const std::string& name)
{
    c.describe(cat(name, " width ", s.g.w, " depth ", s.g.d, " type ", s.g.kind, " ", s.threads, " threads of ", s.steps, " steps over ", s.ops, " ", s.kinds), false);
    compare(c, s);
}

std::string some(Case& c, const std::string& of)
{
    std::string r;
    int n = static_cast<int>(c.range(1, 4));
    for (int i = 0; i < n; ++i) { r += of[static_cast<std::size_t>(c.below(static_cast<long>(of.size())))]; }
    return r;
}

// products and maps over cold tables
void tables(Case& c)
{
    Script s{};
    configure(c, s, false);
    s.ops = some(c, "mMoxybsSht");
    s.steps = static_cast<int>(c.range(4, 20));
    go(c, s, "tables");
}
// lookup of contexts and bases, conversion, copies
void lookup(Case& c)
{
    Script s{};
    configure(c, s, false);
    s.ops = some(c, "ccokrvz");
    s.steps = static_cast<int>(c.range(8, 40));
    go(c, s, "lookup");
}
// queries of shared streams
void queries(Case& c)
{
    Script s{};
    configure(c, s, true);
    s.kinds = some(c, "LPT");
    s.ops = "qq" + some(c, "qqdwmr");
    s.steps = static_cast<int>(c.range(3, 12));
    go(c, s, "queries");
}
// random streams are refined by the threads' queries
void brownian(Case& c)
{
    Script s{};
    configure(c, s, true);
    s.g.kind = static_cast<int>(c.range(0, 1));
    s.g.d = std::min<deg_t>(s.g.d, 3);
    s.kinds = "B";
    s.ops = "q";
    s.steps = static_cast<int>(c.range(3, 12));
    go(c, s, "brownian");
}
// every thread makes the same contexts, elements and streams, at the same time
void cold(Case& c)
{
    Script s{};
    configure(c, s, true);
    s.cold = true;
    s.kinds = some(c, "LPT");
    s.ops = some(c, "mMoxybsShtckrvzqqqdw");
    s.steps = static_cast<int>(c.range(1, 4));
    go(c, s, "cold");
}
void mixed(Case& c)
{
    Script s{};
    configure(c, s, true);
    s.kinds = some(c, "LPTB");
    s.ops = some(c, "mMoxybsShtckrvzqqqdw") + some(c, "mMoxybsShtckrvzqqqdw");
    s.steps = static_cast<int>(c.range(4, 16));
    go(c, s, "mixed");
}

}// namespace

int main(int argc, char** argv)
{
    vp::leak_every = 1000000000;
    return vp::run(argc, argv, {{"tables", tables}, {"lookup", lookup}, {"queries", queries}, {"brownian", brownian}, {"cold", cold}, {"mixed", mixed}});
}
