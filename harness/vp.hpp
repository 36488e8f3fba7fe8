// Runs cases of one check: main(spec) with the same record protocol as lib/worker.py.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define VP_LEAKS() __lsan_do_recoverable_leak_check()
#else
#define VP_LEAKS() 0
#endif

namespace vp {

inline std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r += static_cast<char>(c); }
    }
    return r;
}

template <typename... A>
std::string cat(const A&... a)
{
    std::ostringstream s;
    s.precision(17);
    (void) std::initializer_list<int>{(s << a, 0)...};
    return s.str();
}

struct Stop : std::exception {
};

struct Case {
    std::mt19937_64 eng;
    std::vector<std::pair<std::string, std::string>> viol;
    long evals = 0;
    bool nontrivial = false;
    std::string desc;
    std::string tier;
    int idx = 0;

    void describe(const std::string& t, bool nt = true)
    {
        if (desc.size() < 4000) { desc += (desc.empty() ? "" : " ; ") + t; }
        nontrivial = nontrivial || nt;
    }
    void fail(const std::string& k, const std::string& m)
    {
        if (viol.size() < 20) { viol.emplace_back(k, m.substr(0, 1500)); }
    }
    bool check(bool ok, const std::string& k, const std::function<std::string()>& m)
    {
        ++evals;
        if (!ok) { fail(k, m() + " after: " + desc.substr(desc.size() > 700 ? desc.size() - 700 : 0)); }
        return ok;
    }
    bool check(bool ok, const std::string& k) { return check(ok, k, [] { return std::string(); }); }

    // the step f must raise an ordinary exception
    template <typename F>
    void must_throw(const std::string& k, F&& f, const std::string& m = "")
    {
        ++evals;
        try {
            f();
        } catch (const std::exception&) {
            return;
        }
        fail(k, m + " no exception");
    }
    long below(long n) { return n <= 1 ? 0 : static_cast<long>(eng() % static_cast<std::uint64_t>(n)); }
    long range(long a, long b) { return a + below(b - a + 1); }
    double unit() { return static_cast<double>(eng() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
    template <typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(static_cast<long>(l.size()))); }
    template <typename V>
    auto& of(V& v) { return v[static_cast<std::size_t>(below(static_cast<long>(v.size())))]; }
};

using Fn = std::function<void(Case&)>;

// a leak check costs more than a small case: look after every leak_every cases
inline long leak_every = 1;

inline int run(int argc, char** argv, const std::map<std::string, Fn>& fams)
{
    if (argc < 2) { return 2; }
    std::ifstream spec(argv[1]);
    std::string out, seed, tier, fam;
    std::getline(spec, out);
    std::getline(spec, seed);
    std::getline(spec, tier);
    int idx;
    std::FILE* f = std::fopen(out.c_str(), "a");
    if (f == nullptr) { return 2; }
    while (spec >> fam >> idx) {
        Case c;
        c.tier = tier;
        c.idx = idx;
        std::string id = seed + "/" + fam + "/" + std::to_string(idx);
        std::seed_seq ss(id.begin(), id.end());
        c.eng.seed(ss);
        std::fprintf(f, "{\"b\":[\"%s\",%d]}\n", fam.c_str(), idx);
        std::fflush(f);
        auto t0 = std::chrono::steady_clock::now();
        auto it = fams.find(fam);
        std::string err;
        if (it == fams.end()) {
            err = "no such family " + fam;
        } else {
            try {
                it->second(c);
            } catch (const Stop&) {
            } catch (const std::exception& e) {
                c.fail(std::string("raises.") + typeid(e).name(), std::string(e.what()) + " after: " + c.desc);
            }
        }
        // memory leaked once would be reported again for every later case
        static bool leaked = false;
        static long since = 0;
        if (!leaked && ++since >= leak_every && VP_LEAKS() != 0) {
            leaked = true;
            c.fail("leak", "memory was leaked; " + c.desc);
        }
        if (since >= leak_every) { since = 0; }
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::size_t h = std::hash<std::string>{}(fam + c.desc);
        std::string vs;
        for (auto& v : c.viol) {
            vs += (vs.empty() ? "" : ",") + ("[\"" + esc(v.first) + "\",\"" + esc(v.second) + "\"]");
        }
        std::fprintf(f, "{\"e\":[\"%s\",%d],\"n\":%ld,\"v\":[%s],\"err\":%s,\"nt\":%s,\"h\":\"%zx\",\"d\":\"%s\",\"t\":%.3f}\n",
                     fam.c_str(), idx, c.evals, vs.c_str(), err.empty() ? "null" : ("\"" + esc(err) + "\"").c_str(),
                     c.nontrivial ? "true" : "false", h, esc(c.desc.substr(0, 400)).c_str(), t);
        std::fflush(f);
    }
    std::fprintf(f, "{\"done\":1}\n");
    std::fclose(f);
    std::fflush(nullptr);
    std::_Exit(0);
}

}// namespace vp
