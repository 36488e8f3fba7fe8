// builds: asan
// C26: generic values and arrays against the number type they hold.
#include "vp.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
#include <type_traits>
#include <roughpy/generics/arithmetic_trait.h>
#include <roughpy/generics/array.h>
#include <roughpy/generics/comparison_trait.h>
#include <roughpy/generics/number_trait.h>
#include <roughpy/generics/type.h>
#include <roughpy/generics/values.h>

using namespace rpy;
using namespace rpy::generics;
using vp::Case;
using Q = boost::multiprecision::cpp_rational;
using Z = boost::multiprecision::cpp_int;

namespace {

struct BigInt {
};
struct BigRat {
};

template <typename V>
std::string shown(const V& v)
{
    std::ostringstream s;
    s << v;
    return s.str();
}

Q parse_q(const std::string& s)
{
    auto p = s.find('/');
    if (p == std::string::npos) { return Q(Z(s)); }
    return Q(Z(s.substr(0, p)), Z(s.substr(p + 1)));
}

Z big(Case& c)
{
    Z r = 0;
    int n = static_cast<int>(c.below(c.chance(0.15) ? 8 : 2)) + 1;
    for (int i = 0; i < n; ++i) { r = (r << 32) + Z(static_cast<std::uint32_t>(c.eng())); }
    if (c.chance(0.4)) { r = Z(c.range(0, 6)); }
    if (c.chance(0.05)) { r = (Z(1) << 64) - Z(c.range(0, 2)); }
    return c.chance(0.5) ? -r : r;
}

// what a supported type is, how its values are made and read, and the reference arithmetic
template <typename T>
struct Num {
    using model = T;
    static TypePtr type() { return get_type<T>(); }
    static std::string name() { return std::string(type()->name()); }
    static constexpr bool divides = true;
    static model gen(Case& c)
    {
        if constexpr (std::is_floating_point_v<T>) {
            if (c.chance(0.3)) { return static_cast<T>(c.range(-8, 8)) / 4; }
            return static_cast<T>(std::ldexp(c.unit() * 2 - 1, static_cast<int>(c.range(-12, 12))));
        } else {
            using L = std::numeric_limits<T>;
            if (c.chance(0.25)) { return static_cast<T>(c.pick<long>({0, 1, 2, 3, 7})); }
            // keeps signed products and sums representable
            const int half = L::digits / 2 - 1;
            auto m = static_cast<T>(c.eng() & ((std::uint64_t{1} << half) - 1));
            if constexpr (std::is_signed_v<T>) {
                if (c.chance(0.5)) { m = static_cast<T>(-m); }
            } else if (c.chance(0.2)) {
                return static_cast<T>(c.eng());
            }
            return m;
        }
    }
    static std::string str(const model& m) { return shown(+m); }
    static Value make(const model& m) { return Value(model(m)); }
    template <typename V>
    static model read(const V& v)
    {
        model m;
        std::memcpy(&m, v.data(), sizeof m);
        return m;
    }
    static bool ok(double d)
    {
        if constexpr (std::is_floating_point_v<T>) { return std::isfinite(d); }
        else {
            return d >= static_cast<double>(std::numeric_limits<T>::lowest()) / 2 && d <= static_cast<double>(std::numeric_limits<T>::max()) / 2;
        }
    }
    // whether the operation has a defined result in the type
    static bool defined(char op, const model& a, const model& b)
    {
        if constexpr (std::is_unsigned_v<T>) {
            // unsigned short multiplies as int
            if (sizeof(T) < 4 && op == '*' && static_cast<double>(a) * static_cast<double>(b) >= 2147483648.0) { return false; }
            return op != '/' || b != 0;
        }
        double x = static_cast<double>(a), y = static_cast<double>(b);
        switch (op) {
            case '+': return ok(x + y);
            case '-': return ok(x - y);
            case '*': return ok(x * y);
            default: return b != 0 && ok(x / y);
        }
    }
    static model apply(char op, const model& a, const model& b)
    {
        switch (op) {
            case '+': return static_cast<T>(a + b);
            case '-': return static_cast<T>(a - b);
            case '*': return static_cast<T>(static_cast<std::conditional_t<std::is_floating_point_v<T>, T, std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>>(a) * b);
            default: return static_cast<T>(a / b);
        }
    }
};

template <bool RAT>
struct BigNum {
    using model = Q;
    static TypePtr type()
    {
        const auto& t = MultiPrecisionTypes::get();
        return RAT ? t.rational_type : t.integer_type;
    }
    static std::string name() { return std::string(type()->name()); }
    static constexpr bool divides = RAT;
    static model gen(Case& c)
    {
        if (!RAT) { return Q(big(c)); }
        Z d = big(c);
        if (d == 0) { d = 1; }
        return Q(big(c), d);
    }
    static std::string str(const model& m) { return m.str(); }
    static Value make(const model& m) { return Value(type(), string_view(str(m))); }
    template <typename V>
    static model read(const V& v) { return parse_q(shown(v)); }
    static bool defined(char op, const model& a, const model& b)
    {
        // keeps the numbers of a long history small enough
        if (numerator(a).str().size() + denominator(a).str().size() + numerator(b).str().size() + denominator(b).str().size() > 2000) { return false; }
        return op != '/' || (RAT && b != 0);
    }
    static model apply(char op, const model& a, const model& b)
    {
        switch (op) {
            case '+': return a + b;
            case '-': return a - b;
            case '*': return a * b;
            default: return a / b;
        }
    }
};
template <>
struct Num<BigInt> : BigNum<false> {
};
template <>
struct Num<BigRat> : BigNum<true> {
};

template <typename N, typename V>
bool is(Case& c, const V& v, const typename N::model& m, const char* key, const std::string& what)
{
    if (!c.check(v.is_valid() && v.type() == *N::type(), std::string(key) + ".type", [&] { return what; })) { return false; }
    auto got = N::read(v);
    return c.check(got == m, key, [&] { return N::name() + " " + what + " is " + N::str(got) + " want " + N::str(m); });
}

template <typename T>
void walk(Case& c)
{
    using N = Num<T>;
    using M = typename N::model;
    std::vector<std::unique_ptr<Value>> v;
    std::vector<M> m;
    c.describe(N::name());
    auto make = [&](const M& x) {
        // all the ways of making a value
        switch (c.below(5)) {
            case 0: return Value::from_string(N::type(), string_view(N::str(x)));
            case 1: {
                Value t = N::make(x);
                return Value(N::type(), t.data());
            }
            case 2: {
                Value t = N::make(x);
                return Value(static_cast<ConstRef>(t));
            }
            case 3: {
                Value t;
                t = N::make(x);
                return t;
            }
            default: return N::make(x);
        }
    };
    auto gen = [&] {
        M x = N::gen(c);
        if (std::is_floating_point_v<M>) {
            // printed with six digits
            std::istringstream s(N::str(x));
            double d = 0;
            s >> d;
            if constexpr (std::is_floating_point_v<M>) { x = static_cast<M>(d); }
        }
        return x;
    };
    for (int i = 0; i < 4; ++i) {
        M x = gen();
        v.push_back(std::make_unique<Value>(make(x)));
        m.push_back(x);
        if (!is<N>(c, *v.back(), x, "make", "a new value")) { return; }
    }
    is<N>(c, Value(N::type()), N::apply('-', m[0], m[0]), "make.zero", "a value without data");
    int steps = static_cast<int>(c.range(4, 24));
    for (int s = 0; s < steps; ++s) {
        auto i = static_cast<std::size_t>(c.below(4)), j = static_cast<std::size_t>(c.below(4));
        std::string what;
        switch (c.below(12)) {
            case 0: {
                auto t = std::make_unique<Value>(*v[j]);
                v[i] = std::move(t);
                m[i] = m[j];
                what = "copy construct";
                break;
            }
            case 1:
                *v[i] = *v[j];
                m[i] = m[j];
                what = "copy assign";
                break;
            case 2:
                *v[i] = static_cast<ConstRef>(*v[j]);
                m[i] = m[j];
                what = "assign reference";
                break;
            case 3: {
                Value t(std::move(*v[j]));
                M x = gen();
                M old = m[j];
                // the moved-from value can be assigned
                *v[j] = make(x);
                m[j] = x;
                v[i] = std::make_unique<Value>(std::move(t));
                m[i] = old;
                what = "move construct";
                break;
            }
            case 4:
                if (i != j) {
                    M x = gen(), old = m[j];
                    *v[i] = std::move(*v[j]);
                    m[i] = old;
                    if (c.chance(0.5)) {
                        *v[j] = make(x);
                    } else {
                        v[j] = std::make_unique<Value>(make(x));
                    }
                    m[j] = x;
                    what = "move assign";
                }
                break;
            case 5: {
                M x = gen();
                *v[i] = make(x);
                m[i] = x;
                what = "assign a temporary";
                break;
            }
            default: {
                char op = c.pick({'+', '-', '*', '/', '+', '-', '*'});
                if (op == '/' && !N::divides) {
                    c.must_throw("int.div", [&] { *v[i] /= *v[j]; });
                    break;
                }
                if constexpr (std::is_same_v<T, BigRat>) {
                    if (op == '/' && m[j] == 0) {
                        c.must_throw("zero.div", [&] { *v[i] /= *v[j]; });
                        c.must_throw("zero.div", [&] { (void) (*v[i] / *v[j]); });
                        break;
                    }
                }
                if (!N::defined(op, m[i], m[j])) { break; }
                M r = N::apply(op, m[i], m[j]);
                what = std::string(1, op) + (i == j ? "self" : "");
                if (c.chance(0.4)) {
                    Value t = op == '+' ? *v[i] + *v[j] : op == '-' ? *v[i] - *v[j] : op == '*' ? *v[i] * *v[j] : *v[i] / *v[j];
                    is<N>(c, t, r, "binary", what);
                } else if (c.chance(0.3)) {
                    const auto* tr = trait_cast<ArithmeticTrait>(N::type()->get_builtin_trait(BuiltinTraitID::Arithmetic));
                    ConstRef a(*v[i]), b(*v[j]);
                    Value t = op == '+' ? tr->add(a, b) : op == '-' ? tr->sub(a, b) : op == '*' ? tr->mul(a, b) : tr->div(a, b);
                    is<N>(c, t, r, "trait.binary", what);
                    Value u(*v[i]);
                    Ref ur(u);
                    op == '+' ? tr->add_inplace(ur, b) : op == '-' ? tr->sub_inplace(ur, b) : op == '*' ? tr->mul_inplace(ur, b) : tr->div_inplace(ur, b);
                    is<N>(c, u, r, "trait.inplace", what);
                } else {
                    Ref lr(*v[i]);
                    bool byref = c.chance(0.5);
                    switch (op) {
                        case '+': byref ? (void) (lr += *v[j]) : (void) (*v[i] += *v[j]); break;
                        case '-': byref ? (void) (lr -= *v[j]) : (void) (*v[i] -= *v[j]); break;
                        case '*': byref ? (void) (lr *= *v[j]) : (void) (*v[i] *= *v[j]); break;
                        default: byref ? (void) (lr /= *v[j]) : (void) (*v[i] /= *v[j]); break;
                    }
                    m[i] = r;
                    what += "=";
                }
            }
        }
        c.describe(what);
        // no value changed but the one the step is about
        for (std::size_t k = 0; k < 4; ++k) {
            if (!is<N>(c, *v[k], m[k], "value", what + " value " + std::to_string(k))) { return; }
        }
        const auto &a = *v[i], &b = *v[j];
        c.check((a == b) == (m[i] == m[j]) && (a != b) == (m[i] != m[j]) && (a < b) == (m[i] < m[j]) && (a <= b) == (m[i] <= m[j])
                        && (a > b) == (m[i] > m[j]) && (a >= b) == (m[i] >= m[j]),
                "compare", [&] { return N::name() + " " + N::str(m[i]) + " and " + N::str(m[j]); });
        if (m[i] == m[j]) {
            c.check(hash_value(a) == hash_value(b), "hash", [&] { return N::str(m[i]); });
        }
        c.check(shown(a) == N::str(m[i]), "display", [&] { return shown(a) + " want " + N::str(m[i]); });
        if (!std::is_floating_point_v<M>) { is<N>(c, Value(N::type(), string_view(shown(a))), m[i], "parse", "parsed"); }
    }
    if constexpr (std::is_same_v<T, BigInt> || std::is_same_v<T, BigRat> || std::is_integral_v<T>) {
        for (const char* bad : {"", "x", "1x", "1//2", "0x"}) {
            c.must_throw("parse.bad", [&] { Value t(N::type(), string_view(bad)); }, bad);
        }
        if (std::is_same_v<T, BigRat>) {
            c.must_throw("parse.bad", [&] { Value t(N::type(), string_view("3/0")); }, "3/0");
        }
    }
}

template <typename T>
void functions(Case& c)
{
    using N = Num<T>;
    using M = typename N::model;
    c.describe(N::name());
    const auto* tr = trait_cast<NumberTrait>(N::type()->get_builtin_trait(BuiltinTraitID::Number));
    for (int r = 0; r < 8; ++r) {
        M x = N::gen(c);
        Value v = N::make(x);
        c.describe(N::str(x));
        M ab = x < 0 ? N::apply('-', N::apply('-', x, x), x) : x;
        M zero = N::apply('-', x, x);
        is<N>(c, math::abs(v), ab, "abs", "abs");
        is<N>(c, tr->abs(static_cast<ConstRef>(v)), ab, "abs", "trait abs");
        is<N>(c, math::real(v), x, "real", "real");
        is<N>(c, math::imaginary(v), zero, "imaginary", "imaginary");
        is<N>(c, tr->real(static_cast<ConstRef>(v)), x, "real", "trait real");
        is<N>(c, tr->imaginary(static_cast<ConstRef>(v)), zero, "imaginary", "trait imaginary");
        {
            Value d(N::type());
            tr->abs(static_cast<Ref>(d), static_cast<ConstRef>(v));
            is<N>(c, d, ab, "abs", "abs into");
            tr->real(static_cast<Ref>(d), static_cast<ConstRef>(v));
            is<N>(c, d, x, "real", "real into");
        }
        if constexpr (std::is_floating_point_v<T>) {
            M y = std::abs(x);
            Value w = N::make(y);
            auto near = [&](const Value& g, double want, const char* key) {
                double got = static_cast<double>(N::read(g));
                double tol = std::is_same_v<T, float> ? 1e-5 : 1e-12;
                c.check(got == want || std::abs(got - want) <= tol * std::max(1.0, std::abs(want)) || (std::isinf(want) && std::isinf(got)), key,
                        [&] { return N::name() + " of " + N::str(x) + " gives " + std::to_string(got) + " want " + std::to_string(want); });
            };
            double d = static_cast<double>(y);
            near(math::sqrt(w), std::sqrt(d), "sqrt");
            near(tr->sqrt(static_cast<ConstRef>(w)), std::sqrt(d), "sqrt");
            Value into(N::type());
            tr->sqrt(static_cast<Ref>(into), static_cast<ConstRef>(w));
            near(into, std::sqrt(d), "sqrt");
            if (d < 80) {
                near(math::exp(v), std::exp(static_cast<double>(x)), "exp");
                near(tr->exp(static_cast<ConstRef>(w)), std::exp(d), "exp");
                tr->exp(static_cast<Ref>(into), static_cast<ConstRef>(w));
                near(into, std::exp(d), "exp");
            }
            if (d > 0) {
                near(math::log(w), std::log(d), "log");
                near(tr->log(static_cast<ConstRef>(w)), std::log(d), "log");
                tr->log(static_cast<Ref>(into), static_cast<ConstRef>(w));
                near(into, std::log(d), "log");
            }
            int e = static_cast<int>(c.range(-3, 5));
            if (x != 0 && std::abs(std::log2(d) * e) < 100) {
                near(math::pow(v, e), std::pow(static_cast<double>(x), e), "pow");
                near(tr->pow(static_cast<ConstRef>(v), e), std::pow(static_cast<double>(x), e), "pow");
            }
        }
        if constexpr (std::is_same_v<T, BigRat>) {
            int e = static_cast<int>(c.range(-6, 6));
            Q p = 1;
            for (int i = 0; i < std::abs(e); ++i) { p *= x; }
            if (e < 0 && x == 0) {
                c.must_throw("pow.zero", [&] { (void) math::pow(v, e); });
            } else {
                if (e < 0) { p = 1 / p; }
                is<N>(c, math::pow(v, e), p, "pow", "power " + std::to_string(e));
                is<N>(c, tr->pow(static_cast<ConstRef>(v), e), p, "pow", "trait power " + std::to_string(e));
                Value want = N::make(p);
                c.check(math::pow(v, e) == want && hash_value(math::pow(v, e)) == hash_value(want), "pow.equal",
                        [&] { return N::str(x) + " to " + std::to_string(e); });
            }
        }
        if constexpr (std::is_same_v<T, BigRat> || std::is_same_v<T, BigInt> || std::is_floating_point_v<T>) {
            std::int64_t n = c.chance(0.2) ? 0 : c.range(-1000000, 1000000), d = c.range(1, 5000);
            if (c.chance(0.2)) { n = static_cast<std::int64_t>(c.eng()); }
            if constexpr (std::is_same_v<T, BigInt>) { d = 1; }
            if (c.chance(0.4)) { d = -d; }
            Value g = math::from_rational(N::type(), n, d);
            if constexpr (std::is_floating_point_v<T>) {
                is<N>(c, g, static_cast<T>(n) / static_cast<T>(d), "from_rational", std::to_string(n) + "/" + std::to_string(d));
            } else {
                Q want = Q(Z(n)) / Q(Z(d));
                is<N>(c, g, want, "from_rational", std::to_string(n) + "/" + std::to_string(d));
                Value w = N::make(want);
                c.check(g == w && hash_value(g) == hash_value(w) && shown(g) == N::str(want), "from_rational.equal",
                        [&] { return shown(g) + " want " + N::str(want); });
            }
            c.must_throw("from_rational.zero", [&] { (void) math::from_rational(N::type(), n, 0); });
        }
    }
}

template <typename T>
void arrays(Case& c)
{
    using N = Num<T>;
    using M = typename N::model;
    c.describe(N::name());
    const M zero = M(0);
    std::vector<Array> a(3);
    std::vector<std::vector<M>> m(3);
    std::vector<bool> typed(3, false);
    auto fill = [&](std::size_t i) {
        for (std::size_t k = 0; k < m[i].size(); ++k) {
            if (c.chance(0.5)) {
                M x = N::gen(c);
                Value v = N::make(x);
                Ref r = a[i][k];
                N::type()->copy_or_fill(r.data(), v.data(), 1, false);
                m[i][k] = x;
            }
        }
    };
    int steps = static_cast<int>(c.range(4, 24));
    for (int s = 0; s < steps; ++s) {
        auto i = static_cast<std::size_t>(c.below(3)), j = static_cast<std::size_t>(c.below(3));
        std::string what;
        auto n = static_cast<dimn_t>(c.below(9));
        switch (c.below(8)) {
            case 0: {
                std::size_t al = c.pick<std::size_t>({16, 32, 64});
                a[i] = Array(N::type(), n, al);
                m[i].assign(n, zero);
                typed[i] = true;
                what = "new " + std::to_string(n);
                c.check(n == 0 || reinterpret_cast<std::uintptr_t>(a[i].data()) % al == 0, "array.align", [&] { return what; });
                break;
            }
            case 1: {
                what = "resize " + std::to_string(n);
                if (!typed[i]) {
                    ++c.evals;
                    try {
                        a[i].resize(n);
                        c.fail("array.untyped", what + " no exception");
                    } catch (const ArrayTypeException&) {
                    }
                } else {
                    auto cap = a[i].capacity();
                    a[i].resize(n);
                    m[i].resize(n, zero);
                    c.check(a[i].capacity() == std::max(cap, n), "array.capacity", [&] { return what; });
                }
                break;
            }
            case 2:
                if (typed[i]) {
                    n += static_cast<dimn_t>(c.below(20));
                    auto cap = a[i].capacity();
                    a[i].reserve(n);
                    what = "reserve " + std::to_string(n);
                    c.check(a[i].capacity() == std::max(cap, n), "array.capacity", [&] { return what; });
                }
                break;
            case 3: {
                Array t(a[j]);
                a[i] = std::move(t);
                m[i] = std::vector<M>(m[j]);
                typed[i] = typed[j];
                what = "copy construct";
                break;
            }
            case 4: {
                a[i] = a[j];
                m[i] = std::vector<M>(m[j]);
                typed[i] = typed[j];
                what = "copy assign";
                break;
            }
            case 5:
                if (i != j) {
                    a[i] = std::move(a[j]);
                    m[i] = m[j];
                    typed[i] = typed[j];
                    a[j] = Array(N::type(), n);
                    m[j].assign(n, zero);
                    typed[j] = true;
                    what = "move assign";
                }
                break;
            case 6: {
                Array t(std::move(a[i]));
                a[i] = Array();
                a[i] = std::move(t);
                what = "move away and back";
                break;
            }
            default:
                if (!m[i].empty()) {
                    auto k = static_cast<std::size_t>(c.below(static_cast<long>(m[i].size()))), l = static_cast<std::size_t>(c.below(static_cast<long>(m[i].size())));
                    char op = c.pick({'+', '-', '*'});
                    if (N::defined(op, m[i][k], m[i][l])) {
                        Ref r = a[i][k];
                        ConstRef o = static_cast<const Array&>(a[i])[l];
                        op == '+' ? (void) (r += o) : op == '-' ? (void) (r -= o) : (void) (r *= o);
                        m[i][k] = N::apply(op, m[i][k], m[i][l]);
                        what = std::string("element ") + op;
                    }
                }
        }
        c.describe(what);
        for (std::size_t k = 0; k < 3; ++k) {
            const Array& x = a[k];
            if (!c.check(x.size() == m[k].size() && x.empty() == m[k].empty() && x.capacity() >= x.size()
                                 && (x.type() != nullptr) == typed[k],
                         "array.shape", [&] { return what + " array " + std::to_string(k); })) {
                return;
            }
            for (std::size_t l = 0; l < m[k].size(); ++l) {
                if (!is<N>(c, x[l], m[k][l], "array.element", what + " array " + std::to_string(k) + " element " + std::to_string(l))) { return; }
                auto g = x.get(l);
                c.check(g && g->data() == x[l].data() && x.get_unchecked(l).data() == x[l].data(), "array.get", [&] { return what; });
            }
            c.check(!x.get(m[k].size()), "array.end", [&] { return what; });
            ++c.evals;
            try {
                (void) x[m[k].size()];
                c.fail("array.end", what + " no exception");
            } catch (const ArrayTypeException&) {
                c.check(!typed[k], "array.end");
            } catch (const ArrayIndexException&) {
                c.check(typed[k], "array.end");
            }
            for (std::size_t l = 0; l < k; ++l) {
                c.check(x.data() == nullptr || x.data() != a[l].data(), "array.shared", [&] { return what; });
            }
        }
        fill(i);
    }
}

using F = void (*)(Case&);
#define ALL(f)                                                                                                                    \
    {                                                                                                                             \
        f<BigInt>, f<BigRat>, f<double>, f<BigRat>, f<float>, f<std::int64_t>, f<BigInt>, f<std::int32_t>, f<std::uint64_t>,      \
                f<std::int16_t>, f<std::uint32_t>, f<std::int8_t>, f<std::uint16_t>, f<std::uint8_t>                              \
    }
constexpr F WALK[] = ALL(walk), FUNCS[] = ALL(functions), ARRAYS[] = ALL(arrays);

}// namespace

int main(int argc, char** argv)
{
    vp::leak_every = 14;
    return vp::run(argc, argv,
                   {{"walk", [](Case& c) { WALK[c.idx % 14](c); }},
                    {"functions", [](Case& c) { FUNCS[c.idx % 14](c); }},
                    {"arrays", [](Case& c) { ARRAYS[c.idx % 14](c); }}});
}
