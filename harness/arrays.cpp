// builds: asan
// C27: ownership, contents and conversion of scalar arrays, key arrays and scalar streams.
#include "vp.hpp"
#include <algorithm>
#include <memory>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/key_scalar_stream.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/scalar_stream.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
using namespace rpy;
using namespace rpy::scalars;
using vp::Case;
using vp::cat;

namespace {

template <typename T>
struct El {
    static constexpr bool integer = std::is_integral<T>::value;
    static T make(long num, long den, long)
    {
        if (integer) { return static_cast<T>(std::is_unsigned<T>::value && num < 0 ? -num : num); }
        return static_cast<T>(static_cast<float>(num) / static_cast<float>(den));
    }
};
template <>
struct El<rational_scalar_type> {
    static constexpr bool integer = false;
    static rational_scalar_type make(long num, long den, long big)
    {
        rational_scalar_type r(num, den);
        for (long i = 0; i < big; ++i) { r *= rational_scalar_type("123456789012345678901234567891"); }
        return r;
    }
};
template <>
struct El<rational_poly_scalar> {
    static constexpr bool integer = false;
    static rational_poly_scalar make(long num, long den, long big)
    {
        rational_poly_scalar p(El<rational_scalar_type>::make(num, den, big));
        if (big > 0) { p += rational_poly_scalar(indeterminate_type('x', static_cast<std::uint64_t>(big)), rational_scalar_type(num, 7)); }
        return p;
    }
};

template <typename T>
T value(Case& c)
{
    return El<T>::make(c.range(-100, 100), std::is_integral<T>::value ? 1 : (1L << c.below(3)), c.chance(.3) ? c.range(1, 3) : 0);
}

template <typename T>
std::vector<T> some(Case& c, long lo, long hi)
{
    std::vector<T> v;
    for (long n = c.range(lo, hi); n > 0; --n) { v.push_back(value<T>(c)); }
    return v;
}

template <typename T>
bool same(const ScalarArray& a, const std::vector<T>& v)
{
    if (a.size() != v.size()) { return false; }
    if (v.empty()) { return true; }
    auto s = a.as_slice<T>();
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (!(s[i] == v[i])) { return false; }
    }
    return true;
}

template <typename T>
std::string text(const std::vector<T>& v)
{
    std::string s = "[";
    for (auto& x : v) { s += cat(Scalar(x), ' '); }
    return s + "]";
}

template <typename T>
std::string text(const ScalarArray& a)
{
    std::vector<T> v;
    if (a.size() > 0) {
        for (auto& x : a.as_slice<T>()) { v.push_back(x); }
    }
    return text(v);
}

// Memory of the caller, or of an owning array
template <typename T>
struct Store {
    std::vector<T> vals;
    bool host = false;
};

enum Mode { ConstRef, MutRef, Owner };

template <typename T>
struct Slot {
    std::unique_ptr<ScalarArray> a;
    std::shared_ptr<Store<T>> st;
    std::size_t off = 0, len = 0;
    Mode mode = Owner;
};

template <typename T>
struct Pool {
    Case& c;
    std::vector<Slot<T>> s{6};
    const ScalarType* type = nullptr;

    explicit Pool(Case& cc) : c(cc)
    {
        auto t = ScalarType::of<T>();
        if (t) { type = *t; }
    }
    void drop(Slot<T>& x)
    {
        if (x.a && x.mode == Owner) {
            bool last = true;
            for (auto& y : s) { last = last && !(&y != &x && y.a && y.st == x.st && y.mode == Owner); }
            if (last && !x.st->host) {
                for (auto& y : s) {
                    if (&y != &x && y.a && y.st == x.st) { y = Slot<T>(); }
                }
            }
        }
        x = Slot<T>();
    }
    Slot<T>* live(bool nonempty = false)
    {
        std::vector<Slot<T>*> l;
        for (auto& x : s) {
            if (x.a && (!nonempty || x.len > 0)) { l.push_back(&x); }
        }
        return l.empty() ? nullptr : c.of(l);
    }
    Slot<T>* other(Slot<T>* x)
    {
        Slot<T>* y;
        do { y = &c.of(s); } while (y == x);
        return y;
    }
    std::string at(Slot<T>* x) { return cat("slot ", x - s.data()); }
    // The slot y, emptied; x may have been a view of it.
    bool room(Slot<T>* y, Slot<T>* x)
    {
        drop(*y);
        return x == nullptr || x->a != nullptr;
    }
    void audit(const std::string& what)
    {
        for (auto& x : s) {
            if (!x.a) { continue; }
            std::vector<T> want(x.st->vals.begin() + static_cast<long>(x.off), x.st->vals.begin() + static_cast<long>(x.off + x.len));
            c.check(same<T>(*x.a, want), "content", [&] { return cat(what, ": ", at(&x), " holds ", text<T>(*x.a), " not ", text(want)); });
            c.check(x.a->is_owning() == (x.mode == Owner && x.len > 0) || x.len == 0, "owning", [&] { return what + " " + at(&x); });
            c.check(x.a->is_const() == (x.mode == ConstRef) || x.len == 0, "const", [&] { return what + " " + at(&x); });
            if (x.st->host && x.len > 0) {
                c.check(x.a->pointer() == static_cast<const void*>(x.st->vals.data() + x.off), "borrowed.address", [&] { return what + " " + at(&x); });
            }
            c.check(x.a->type_info() == devices::type_info<T>(), "type", [&] { return what + " " + at(&x); });
        }
    }
};

template <typename T>
void history(Case& c)
{
    Pool<T> p(c);
    auto info = devices::type_info<T>();
    c.describe(cat("elements ", typeid(T).name()));
    for (long step = c.range(8, 30); step > 0; --step) {
        long op = c.below(14);
        std::string what;
        Slot<T>* x = p.live();
        if (op <= 2 || x == nullptr) {
            Slot<T>* y = &c.of(p.s);
            p.room(y, nullptr);
            auto st = std::make_shared<Store<T>>();
            long kind = c.below(3);
            if (kind == 2) {
                long n = c.range(1, 5);
                st->vals = std::vector<T>(static_cast<std::size_t>(n), T(0));
                if (p.type != nullptr) {
                    y->a = std::make_unique<ScalarArray>(p.type, static_cast<dimn_t>(n));
                } else {
                    y->a = std::make_unique<ScalarArray>(info, static_cast<dimn_t>(n));
                    auto sl = y->a->template as_mut_slice<T>();
                    std::fill(sl.begin(), sl.end(), T(0));
                }
                y->mode = Owner;
                what = "allocate";
            } else {
                st->vals = some<T>(c, 0, 5);
                st->host = true;
                y->mode = kind == 0 ? ConstRef : MutRef;
                T* d = st->vals.data();
                dimn_t n = st->vals.size();
                long how = c.below(p.type != nullptr ? 4 : 3);
                if (kind == 0) {
                    const T* cd = d;
                    if (how == 0) { y->a = std::make_unique<ScalarArray>(cd, n); }
                    else if (how == 1) { y->a = std::make_unique<ScalarArray>(info, static_cast<const void*>(cd), n); }
                    else if (how == 2) { y->a = std::make_unique<ScalarArray>(Slice<const T>(cd, n)); }
                    else { y->a = std::make_unique<ScalarArray>(p.type, static_cast<const void*>(cd), n); }
                } else {
                    if (how == 0) { y->a = std::make_unique<ScalarArray>(d, n); }
                    else if (how == 1) { y->a = std::make_unique<ScalarArray>(info, static_cast<void*>(d), n); }
                    else if (how == 2) { y->a = std::make_unique<ScalarArray>(Slice<T>(d, n)); }
                    else { y->a = std::make_unique<ScalarArray>(p.type, static_cast<void*>(d), n); }
                }
                what = kind == 0 ? "borrow caller's const data" : "borrow caller's data";
            }
            y->st = st;
            y->len = st->vals.size();
            what += " in " + p.at(y);
        } else if (op == 3) {
            Slot<T>* y = p.other(x);
            what = "copy construct " + p.at(y) + " from " + p.at(x);
            if (p.room(y, x)) {
                y->a = std::make_unique<ScalarArray>(*x->a);
                y->st = x->st; y->off = x->off; y->len = x->len; y->mode = x->mode;
            }
        } else if (op == 4) {
            Slot<T>* y = p.other(x);
            what = "move construct " + p.at(y) + " from " + p.at(x);
            if (p.room(y, x)) {
                y->a = std::make_unique<ScalarArray>(std::move(*x->a));
                y->st = x->st; y->off = x->off; y->len = x->len; y->mode = x->mode;
                *x = Slot<T>();
            }
        } else if (op == 5 && p.type != nullptr) {
            // assigned copies are independent
            Slot<T>* y = p.other(x);
            what = "copy assign " + p.at(y) + " from " + p.at(x);
            std::vector<T> keep(x->st->vals.begin() + static_cast<long>(x->off), x->st->vals.begin() + static_cast<long>(x->off + x->len));
            auto tmp = std::make_unique<ScalarArray>();
            bool fresh = c.chance(.5) || !y->a;
            if (fresh) {
                *tmp = *x->a;
                p.drop(*y);
            } else {
                // assigning over a live array releases what it held, after the copy is made
                *y->a = *x->a;
                tmp = std::move(y->a);
                y->a = std::make_unique<ScalarArray>();
                p.drop(*y);
            }
            y->a = std::move(tmp);
            y->st = std::make_shared<Store<T>>();
            y->st->vals = keep;
            y->off = 0; y->len = keep.size(); y->mode = keep.empty() ? ConstRef : Owner;
        } else if (op == 6) {
            Slot<T>* y = p.other(x);
            what = "move assign " + p.at(y) + " from " + p.at(x);
            if (!y->a) { y->a = std::make_unique<ScalarArray>(); y->st = std::make_shared<Store<T>>(); y->mode = ConstRef; }
            // views of what y alone owned end here
            bool sole = y->mode == Owner && !y->st->host;
            for (auto& z : p.s) { sole = sole && !(&z != y && z.a && z.st == y->st && z.mode == Owner); }
            if (sole) {
                for (auto& z : p.s) {
                    if (&z != y && z.a && z.st == y->st && &z != x) { z = Slot<T>(); }
                }
            }
            if (!(sole && x->st == y->st)) {
                *y->a = std::move(*x->a);
                y->st = x->st; y->off = x->off; y->len = x->len; y->mode = x->mode;
                *x = Slot<T>();
            }
        } else if (op == 7 || op == 8) {
            if (x->len == 0) { continue; }
            Slot<T>* y = p.other(x);
            std::size_t b = static_cast<std::size_t>(c.below(static_cast<long>(x->len)));
            std::size_t e = static_cast<std::size_t>(c.range(static_cast<long>(b) + 1, static_cast<long>(x->len)));
            bool mut = op == 8;
            what = cat(mut ? "mutable " : "const ", "slice ", b, ":", e, " of ", p.at(x), " in ", p.at(y));
            if (mut && x->mode == ConstRef) {
                c.must_throw("slice.const", [&] { (void) (*x->a)[SliceIndex{b, e}]; }, what);
                continue;
            }
            c.must_throw("slice.end", [&] { (void) (*static_cast<const ScalarArray*>(x->a.get()))[SliceIndex{b, x->len + 1}]; }, what);
            if (p.room(y, x)) {
                y->a = std::make_unique<ScalarArray>(mut ? (*x->a)[SliceIndex{b, e}] : static_cast<const ScalarArray&>(*x->a)[SliceIndex{b, e}]);
                y->st = x->st; y->off = x->off + b; y->len = e - b; y->mode = mut ? MutRef : ConstRef;
            }
        } else if (op == 9) {
            Slot<T>* y = p.other(x);
            bool mut = c.chance(.5);
            what = cat(mut ? "mutable " : "", "borrow of ", p.at(x), " in ", p.at(y));
            if (mut && x->mode == ConstRef) {
                c.must_throw("borrow.const", [&] { (void) x->a->borrow_mut(); }, what);
                continue;
            }
            if (p.room(y, x)) {
                y->a = std::make_unique<ScalarArray>(mut ? x->a->borrow_mut() : x->a->borrow());
                y->st = x->st; y->off = x->off; y->len = x->len; y->mode = mut ? MutRef : ConstRef;
            }
        } else if (op == 10 || op == 11) {
            if (x->len == 0) { continue; }
            std::size_t i = static_cast<std::size_t>(c.below(static_cast<long>(x->len)));
            T v = value<T>(c);
            what = cat("write ", Scalar(v), " at ", i, " of ", p.at(x));
            if (x->mode == ConstRef) {
                c.must_throw("write.const", [&] { (void) x->a->template as_mut_slice<T>(); }, what);
                c.must_throw("write.const", [&] { (void) x->a->mut_pointer(); }, what);
                continue;
            }
            if (op == 10) { x->a->template as_mut_slice<T>()[i] = v; }
            else {
                Scalar ref = (*x->a)[i];
                ref = v;
            }
            x->st->vals[x->off + i] = v;
        } else if (op == 12) {
            if (x->len == 0) { continue; }
            std::size_t i = static_cast<std::size_t>(c.below(static_cast<long>(x->len)));
            what = cat("read ", i, " of ", p.at(x));
            const auto& ca = *x->a;
            c.check(ca[i] == Scalar(x->st->vals[x->off + i]), "read", [&] { return what; });
            c.must_throw("read.end", [&] { (void) ca[x->len]; }, what);
            if (x->mode == Owner) {
                c.check(x->a->buffer().size() == x->len * sizeof(T) && x->a->capacity() == x->len * sizeof(T), "buffer.size", [&] { return what; });
            } else {
                c.must_throw("buffer.borrowed", [&] { (void) ca.buffer(); }, what);
            }
        } else if (op == 13) {
            if (c.chance(.5)) {
                what = "drop " + p.at(x);
                p.drop(*x);
            } else if (p.type != nullptr && x->len > 0) {
                // an owning array, or a copy of a borrowed one
                Slot<T>* y = p.other(x);
                what = "own copy of " + p.at(x) + " in " + p.at(y);
                bool was_owner = x->mode == Owner;
                if (p.room(y, x)) {
                    std::vector<T> keep(x->st->vals.begin() + static_cast<long>(x->off), x->st->vals.begin() + static_cast<long>(x->off + x->len));
                    y->a = std::make_unique<ScalarArray>(std::move(*x->a).copy_or_clone());
                    y->mode = Owner;
                    if (was_owner) {
                        y->st = x->st; y->off = x->off; y->len = x->len;
                        // the source may or may not be left empty: forget it
                        *x = Slot<T>();
                    } else {
                        y->st = std::make_shared<Store<T>>();
                        y->st->vals = keep;
                        y->len = keep.size();
                    }
                }
            }
        }
        if (!what.empty()) {
            c.describe(what);
            p.audit(what);
        }
        if (!c.viol.empty()) { return; }
    }
}

template <typename D, typename S>
void convert_pair(Case& c)
{
    auto dt = ScalarType::of<D>();
    auto st = ScalarType::of<S>();
    std::vector<S> src;
    std::vector<D> want;
    bool whole = std::is_integral<D>::value || std::is_integral<S>::value;
    bool positive = std::is_unsigned<D>::value || std::is_unsigned<S>::value;
    for (long n = c.range(1, 6); n > 0; --n) {
        long num = positive ? c.range(0, 100) : c.range(-100, 100), den = whole ? 1 : (1L << c.below(3));
        src.push_back(El<S>::make(num, den, 0));
        want.push_back(El<D>::make(num, den, 0));
    }
    ScalarArray s(static_cast<const S*>(src.data()), src.size());
    if (st && c.chance(.5)) {
        ScalarArray o;
        o = s;
        s = std::move(o);
    }
    dimn_t n = src.size();
    long kind = c.below(4);
    dimn_t room = kind == 0 ? n : n + static_cast<dimn_t>(c.range(0, 3));
    std::vector<D> host(room, El<D>::make(3, 1, 0));
    ScalarArray d;
    if (kind <= 1 && dt) {
        d = ScalarArray(*dt, room);
        auto sl = d.as_mut_slice<D>();
        std::copy(host.begin(), host.end(), sl.begin());
    } else {
        d = ScalarArray(host.data(), room);
    }
    c.describe(cat("convert ", typeid(S).name(), text(src), " to ", typeid(D).name(), " room ", room, kind <= 1 ? " owned" : " borrowed"));
    const ScalarType* via = dt ? *dt : (st ? *st : *ScalarType::of<double>());
    // no conversion exists between the short floats and the rationals
    bool small_s = std::is_same<S, half>::value || std::is_same<S, bfloat16>::value;
    bool small_d = std::is_same<D, half>::value || std::is_same<D, bfloat16>::value;
    bool exact_s = std::is_same<S, rational_scalar_type>::value || std::is_same<S, rational_poly_scalar>::value;
    bool exact_d = std::is_same<D, rational_scalar_type>::value || std::is_same<D, rational_poly_scalar>::value;
    if ((small_s && exact_d) || (small_d && exact_s)) { return; }
    via->convert_copy(d, s);
    c.check(d.size() >= n, "convert.size");
    bool ok = d.size() >= n;
    for (dimn_t i = 0; ok && i < n; ++i) { ok = d.as_slice<D>()[i] == want[i]; }
    c.check(ok, "convert.value", [&] { return cat("gave ", text<D>(d), " not ", text(want)); });
    ok = true;
    for (dimn_t i = n; i < d.size(); ++i) { ok = ok && d.as_slice<D>()[i] == El<D>::make(3, 1, 0); }
    c.check(ok, "convert.beyond", [&] { return text<D>(d); });
    c.check(same<S>(s, src), "convert.source");
    // too little room, or no right to write
    if (n > 1) {
        std::vector<D> small(n - 1, El<D>::make(3, 1, 0)), keep(small);
        ScalarArray b(small.data(), n - 1);
        c.must_throw("convert.small", [&] { via->convert_copy(b, s); });
        c.check(small == keep, "convert.small.wrote");
    }
    std::vector<D> ro(n, El<D>::make(3, 1, 0)), keep(ro);
    ScalarArray b(static_cast<const D*>(ro.data()), n);
    c.must_throw("convert.const", [&] { via->convert_copy(b, s); });
    c.check(ro == keep, "convert.const.wrote");
    // one value
    Scalar one(src[0]);
    D got = scalar_cast<D>(one);
    c.check(got == want[0], "convert.one", [&] { return cat(Scalar(got), " from ", one); });
}

template <typename D>
void convert_to(Case& c)
{
    switch (c.below(9)) {
        case 0: return convert_pair<D, double>(c);
        case 1: return convert_pair<D, float>(c);
        case 2: return convert_pair<D, std::int8_t>(c);
        case 3: return convert_pair<D, std::int32_t>(c);
        case 4: return convert_pair<D, std::int64_t>(c);
        case 5: return convert_pair<D, std::uint16_t>(c);
        case 6: return convert_pair<D, half>(c);
        case 7: return convert_pair<D, bfloat16>(c);
        default: return convert_pair<D, rational_scalar_type>(c);
    }
}

void convert(Case& c)
{
    switch (c.below(6)) {
        case 0: return convert_to<double>(c);
        case 1: return convert_to<float>(c);
        case 2: return convert_to<half>(c);
        case 3: return convert_to<bfloat16>(c);
        case 4: return convert_to<rational_poly_scalar>(c);
        default: return convert_to<rational_scalar_type>(c);
    }
}

template <typename T>
struct KSlot {
    std::unique_ptr<KeyScalarArray> a;
    std::vector<T> vals;
    std::vector<key_type> keys;
    bool has = false, owns = false;
    const key_type* host = nullptr;
};

template <typename T>
void keyed(Case& c)
{
    const auto* t = *ScalarType::of<T>();
    std::vector<std::unique_ptr<std::vector<T>>> vs;
    std::vector<std::unique_ptr<std::vector<key_type>>> ks;
    std::vector<KSlot<T>> s(4);
    c.describe(cat("keyed ", typeid(T).name()));
    for (long step = c.range(6, 24); step > 0; --step) {
        KSlot<T>* x = &c.of(s);
        KSlot<T>* y;
        do { y = &c.of(s); } while (y == x);
        long op = c.below(10);
        std::string what;
        auto slot = [&](KSlot<T>* z) { return cat("slot ", z - s.data()); };
        auto fresh_keys = [&](std::size_t n) {
            ks.push_back(std::make_unique<std::vector<key_type>>());
            for (std::size_t i = 0; i < n; ++i) { ks.back()->push_back(c.eng() >> c.below(60)); }
            return ks.back().get();
        };
        if (!x->a || op == 0) {
            x->vals = some<T>(c, 1, 5);
            vs.push_back(std::make_unique<std::vector<T>>(x->vals));
            ScalarArray base(static_cast<const T*>(vs.back()->data()), vs.back()->size());
            if (c.chance(.5)) {
                ScalarArray own;
                own = base;
                base = std::move(own);
            }
            if (c.chance(.6)) {
                auto* k = fresh_keys(x->vals.size());
                x->a = std::make_unique<KeyScalarArray>(std::move(base), k->data());
                x->keys = *k; x->has = true; x->owns = false; x->host = k->data();
                what = "borrowed keys in " + slot(x);
            } else {
                x->a = std::make_unique<KeyScalarArray>(std::move(base));
                x->keys.clear(); x->has = false; x->owns = false; x->host = nullptr;
                what = "no keys in " + slot(x);
            }
        } else if (op <= 2) {
            x->a->allocate_keys(c.chance(.5) ? -1 : static_cast<idimn_t>(x->vals.size()));
            auto* k = fresh_keys(x->vals.size());
            c.check(x->a->keys() != nullptr, "keys.writable");
            std::copy(k->begin(), k->end(), x->a->keys());
            x->keys = *k; x->has = true; x->owns = true; x->host = nullptr;
            what = "allocate keys of " + slot(x);
            c.must_throw("keys.count", [&] {
                KeyScalarArray z(*x->a);
                z.allocate_keys(static_cast<idimn_t>(x->vals.size()) + 1);
            });
        } else if (op == 3 || op == 4) {
            what = "copy " + slot(x) + " to " + slot(y);
            if (op == 3) {
                y->a = std::make_unique<KeyScalarArray>(*x->a);
            } else {
                if (!y->a) { y->a = std::make_unique<KeyScalarArray>(); }
                *y->a = *x->a;
            }
            y->vals = x->vals; y->keys = x->keys; y->has = x->has; y->owns = x->owns; y->host = x->host;
            if (x->owns) {
                c.check(static_cast<const KeyScalarArray&>(*y->a).keys() != static_cast<const KeyScalarArray&>(*x->a).keys(), "keys.alias", [&] { return what; });
            }
        } else if (op == 5 || op == 6) {
            what = "move " + slot(x) + " to " + slot(y);
            if (op == 5) {
                y->a = std::make_unique<KeyScalarArray>(std::move(*x->a));
            } else {
                if (!y->a) { y->a = std::make_unique<KeyScalarArray>(); }
                *y->a = std::move(*x->a);
            }
            y->vals = x->vals; y->keys = x->keys; y->has = x->has; y->owns = x->owns; y->host = x->host;
            *x = KSlot<T>();
        } else if (op == 7) {
            if (!x->has) { continue; }
            what = "own copy of " + slot(x) + " in " + slot(y);
            KeyScalarArray z(std::move(*x->a).copy_or_move());
            y->a = std::make_unique<KeyScalarArray>(std::move(z));
            y->vals = x->vals; y->keys = x->keys; y->has = true; y->owns = true; y->host = nullptr;
            *x = KSlot<T>();
        } else if (op == 8) {
            if (!x->owns) {
                c.check(x->a->keys() == nullptr, "keys.const", [&] { return slot(x); });
                continue;
            }
            std::size_t i = static_cast<std::size_t>(c.below(static_cast<long>(x->keys.size())));
            key_type v = c.eng();
            x->a->keys()[i] = v;
            x->keys[i] = v;
            what = "write key " + slot(x);
        } else if (op == 9 && c.chance(.5)) {
            x->vals = some<T>(c, 1, 5);
            vs.push_back(std::make_unique<std::vector<T>>(x->vals));
            ScalarArray base(static_cast<const T*>(vs.back()->data()), vs.back()->size());
            what = "assign unkeyed array to " + slot(x);
            if (c.chance(.5)) { *x->a = base; } else { *x->a = std::move(base); }
            x->keys.clear(); x->has = false; x->owns = false; x->host = nullptr;
        } else if (op == 9) {
            dimn_t n = static_cast<dimn_t>(c.range(1, 6));
            what = cat("allocate ", n, " scalars in ", slot(x));
            x->a->allocate_scalars(static_cast<idimn_t>(n));
            x->vals = std::vector<T>(n, T(0));
            x->keys.clear(); x->has = false; x->owns = false; x->host = nullptr;
        }
        (void) t;
        if (what.empty()) { continue; }
        c.describe(what);
        for (auto& z : s) {
            if (!z.a) { continue; }
            const KeyScalarArray& k = *z.a;
            c.check(same<T>(k, z.vals), "keyed.content", [&] { return cat(what, ": ", slot(&z), " ", text<T>(k), " not ", text(z.vals)); });
            c.check(k.has_keys() == z.has, "keyed.has", [&] { return what + ": " + slot(&z); });
            if (z.has && k.has_keys()) {
                c.check(std::equal(z.keys.begin(), z.keys.end(), k.keys()), "keyed.keys", [&] { return what + ": " + slot(&z); });
            }
            if (z.host != nullptr) { c.check(k.keys() == z.host, "keyed.borrowed", [&] { return what + ": " + slot(&z); }); }
        }
        if (!c.viol.empty()) { return; }
    }
}

template <typename T>
void rows(Case& c)
{
    const auto* t = *ScalarType::of<T>();
    std::vector<std::unique_ptr<std::vector<T>>> vs;
    std::vector<std::unique_ptr<std::vector<key_type>>> ks;
    std::vector<std::vector<T>> want;
    std::vector<const key_type*> wk;
    KeyScalarStream st(t);
    if (c.chance(.5)) { st.reserve_size(static_cast<dimn_t>(c.range(0, 8))); }
    c.describe(cat("rows of ", typeid(T).name()));
    auto push = [&](KeyScalarStream& q) {
        vs.push_back(std::make_unique<std::vector<T>>(some<T>(c, 0, 4)));
        ScalarArray a(static_cast<const T*>(vs.back()->data()), vs.back()->size());
        const key_type* kp = nullptr;
        if (c.chance(.4)) {
            ks.push_back(std::make_unique<std::vector<key_type>>(vs.back()->size() + 1, 7));
            kp = ks.back()->data();
        }
        if (c.chance(.5)) { q.push_back(a, kp); } else { q.push_back(std::move(a), kp); }
        want.push_back(*vs.back());
        wk.push_back(kp);
    };
    auto audit = [&](const KeyScalarStream& q, const char* k) {
        if (!c.check(q.row_count() == want.size(), std::string(k) + ".rows")) { return; }
        dimn_t mx = 0;
        for (std::size_t i = 0; i < want.size(); ++i) {
            mx = std::max(mx, want[i].size());
            KeyScalarArray r = q[i];
            c.check(same<T>(r, want[i]), std::string(k) + ".row", [&] { return cat("row ", i, " ", text<T>(r)); });
            c.check(static_cast<const KeyScalarArray&>(r).keys() == wk[i], std::string(k) + ".keys", [&] { return cat("row ", i); });
            c.check(q.col_count(i) == want[i].size(), std::string(k) + ".cols");
            if (!want[i].empty()) {
                std::size_t j = static_cast<std::size_t>(c.below(static_cast<long>(want[i].size())));
                c.check(static_cast<const ScalarStream&>(q)[{i, j}] == Scalar(want[i][j]), std::string(k) + ".element");
            }
        }
        c.check(q.max_row_size() == mx, std::string(k) + ".max");
        c.check(q.type() == t, std::string(k) + ".type");
    };
    for (long n = c.range(0, 7); n > 0; --n) { push(st); }
    c.describe(cat(want.size(), " rows"));
    audit(st, "pushed");
    KeyScalarStream copy(st);
    audit(copy, "copied");
    KeyScalarStream moved(std::move(copy));
    audit(moved, "moved");
    KeyScalarStream other(t);
    {
        // something to be replaced
        auto w = want;
        auto k = wk;
        push(other);
        want = w;
        wk = k;
    }
    if (c.chance(.5)) {
        other = st;
        audit(st, "assigned.from");
    } else {
        other = std::move(moved);
    }
    audit(other, "assigned");
    push(other);
    audit(other, "extended");
    // a matrix as a stream of its rows
    long r = c.range(1, 4), w = c.range(1, 4);
    std::vector<T> m;
    for (long i = 0; i < r * w; ++i) { m.push_back(value<T>(c)); }
    std::unique_ptr<ScalarStream> ms;
    {
        long kind = c.below(3);
        ScalarArray base = kind == 0 ? ScalarArray(static_cast<const T*>(m.data()), m.size()) : ScalarArray(m.data(), m.size());
        if (kind == 2) {
            ScalarArray own;
            own = base;
            base = std::move(own);
        }
        c.describe(cat("matrix ", r, "x", w, kind == 2 ? " owned" : kind == 1 ? " borrowed" : " const"));
        ms = std::make_unique<ScalarStream>(std::move(base), std::vector<dimn_t>{static_cast<dimn_t>(r), static_cast<dimn_t>(w)});
    }
    if (c.check(ms->row_count() == static_cast<dimn_t>(r), "matrix.rows")) {
        for (long i = 0; i < r; ++i) {
            std::vector<T> row(m.begin() + i * w, m.begin() + (i + 1) * w);
            c.check(same<T>((*ms)[static_cast<dimn_t>(i)], row), "matrix.row", [&] { return cat("row ", i, " ", text<T>((*ms)[static_cast<dimn_t>(i)]), " not ", text(row)); });
        }
        c.check(ms->type() == t, "matrix.type");
    }
}

template <typename F1, typename F2, typename F3, typename F4, typename F5, typename F6>
void one(Case& c, F1 a, F2 b, F3 d, F4 e, F5 f, F6 g)
{
    switch (c.below(6)) {
        case 0: return a(c);
        case 1: return b(c);
        case 2: return d(c);
        case 3: return e(c);
        case 4: return f(c);
        default: return g(c);
    }
}

}// namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {{"history", [](Case& c) { one(c, history<double>, history<float>, history<rational_scalar_type>, history<rational_poly_scalar>, history<half>, history<bfloat16>); }},
                    {"history_int", [](Case& c) { one(c, history<std::int8_t>, history<std::int32_t>, history<std::int64_t>, history<std::uint16_t>, history<std::uint64_t>, history<std::uint32_t>); }},
                    {"convert", convert},
                    {"keyed", [](Case& c) { one(c, keyed<double>, keyed<float>, keyed<rational_scalar_type>, keyed<rational_poly_scalar>, keyed<half>, keyed<bfloat16>); }},
                    {"rows", [](Case& c) { one(c, rows<double>, rows<float>, rows<rational_scalar_type>, rows<rational_poly_scalar>, rows<half>, rows<bfloat16>); }}});
}
