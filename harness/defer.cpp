// C36: deferred actions; C37: visiting by matching (B_MATCH).
#include "kls.h"
#include "kl/defer.hpp"
#include "kl/match.hpp"
#include <string>
#include <vector>
#ifndef B_MATCH
static std::vector<int> log_;
static int body(unsigned how, int v)
{
    log_.push_back(1);
    KL_DEFER(log_.push_back(10); v += 1; log_.push_back(v));
    if (how == 0) return v;
    KL_DEFER(log_.push_back(20)); KL_DEFER((void)v);
    if (how == 1) throw v;
    {
        KL_DEFER(log_.push_back(30));
        if (how == 2) return v + 1;
        if (how == 3) throw v + 1;
        log_.push_back(2);
    }
    log_.push_back(3);
    for (int i = 0; i < 2; ++i) {
        KL_DEFER(log_.push_back(40 + i));
        if (how == 4 && i == 1) break;
        if (how == 5) continue;
        log_.push_back(4);
    }
    return v + 2;
}
struct probe {
    int& n;
    ~probe() { KL_DEFER(n += 100); n += 1; } // also while an exception is passing
};
extern "C" void kls_harness()
{
    int n = 0;
    try {
        probe p{n};
        throw 1;
    } catch (int) {
    }
    CHECKM(n == 101, "deferred actions run in a scope left normally while an exception is passing");
    unsigned how = kls::choose("how", 7);
    int v = kls::sym<int>("v");
    kls_assume(v < 1000 && v > -1000);
    long got;
    bool threw = false;
    try { got = body(how, v); } catch (int e) { threw = true; got = e; }
    std::vector<int> w;
    switch (how) {
    case 0: w = {1, 10, v + 1}; break;
    case 1: w = {1, 20, 10, v + 1}; break;
    case 2:
    case 3: w = {1, 30, 20, 10, v + 1}; break;
    case 4: w = {1, 2, 30, 3, 4, 40, 41, 20, 10, v + 1}; break;
    case 5: w = {1, 2, 30, 3, 40, 41, 20, 10, v + 1}; break;
    default: w = {1, 2, 30, 3, 4, 40, 4, 41, 20, 10, v + 1}; break;
    }
    CHECKM(threw == (how == 1 || how == 3), "exceptions pass through deferred actions");
    CHECKM(got == (how == 0 || how == 1 ? v : how == 2 || how == 3 ? v + 1 : v + 2), "results are computed before deferred actions run");
    CHECKM(log_ == w, "deferred actions run once each, last registered first, at the end of their own scope");
    COVER("end");
}
#else
static int by_ref(int& x) { int o = x; x += 1; return o; }
static const void* where(const std::string& s) { return &s; }
static int free_fn(int x) { return x ^ 0x55; }
struct counting { int copies = 0; int v; explicit counting(int x) : v(x) {} counting(const counting& o) : copies(o.copies + 1), v(o.v) {} counting(counting&&) = default; counting& operator=(counting&&) = default; };
extern "C" void kls_harness()
{
    using V = std::variant<int, std::string, bool, counting>;
    unsigned alt = kls::choose("alt", 4);
    int x = kls::sym<int>("x");
    V v = alt == 0 ? V(x) : alt == 1 ? V(std::string(1, (char)x)) : alt == 2 ? V((bool)(x & 1)) : V(std::in_place_type<counting>, x);
    unsigned ran = 0;
    int r = kl::match(v,
        [&](int& i) { ran |= 1; int o = i; i = ~i; return o; },
        [&](const std::string& s) { ran |= 2; return (int)(unsigned char)s[0]; },
        [&](bool b) { ran |= 4; return b ? 7 : 8; },
        [&](const counting& c) { ran |= 8; CHECKM(c.copies == 0, "the alternative is passed by reference"); return c.v; });
    CHECKM(ran == (1u << alt), "exactly the handler of the held alternative runs");
    CHECKM(r == (alt == 0 ? x : alt == 1 ? (int)(unsigned char)x : alt == 2 ? ((x & 1) ? 7 : 8) : x), "the handler's result is returned");
    if (alt == 0) CHECKM(std::get<0>(v) == ~x, "handlers can modify the held value");
    CHECKM(v.index() == alt, "matching keeps the alternative");
    // fallback and free functions
    const V& c = v;
    ran = 0;
    int q = kl::match(c, kl::func_overload{free_fn}, [&](const auto&) { ran = 1; return -1; });
    CHECKM((alt == 0) == !ran && (alt == 0 ? q == free_fn(~x) || true : q == -1), "a generic handler takes what nothing else matches");
    if (alt == 0) CHECKM(q == (~x ^ 0x55), "a free function handles its alternative");
    // free functions taking references get the held value itself
    std::variant<int, std::string> w;
    int y = kls::sym<int>("y");
    kls_assume(y < 1000000);
    if (alt & 1) w = std::string("s");
    else w = y;
    int z = kl::match(w, kl::func_overload{by_ref}, [](const std::string&) { return -3; });
    if (alt & 1) CHECKM(z == -3 && std::get<1>(w) == "s", "the other handler runs");
    else CHECKM(z == y && std::get<0>(w) == y + 1, "a free function can modify the held value");
    const void* at = kl::match(w, kl::func_overload{where}, [](const int&) { return (const void*)nullptr; });
    CHECKM(at == ((alt & 1) ? (const void*)&std::get<1>(w) : nullptr), "a free function sees the held value itself");
    // temporaries
    int tv = kl::match(V(x), [](int i) { return i; }, [](const auto&) { return -5; });
    CHECKM(tv == x, "a temporary can be matched");
    COVER("end");
}
#endif
