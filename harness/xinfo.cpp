// C35: information attached to exceptions.
#include "kls.h"
#include "kl/exception_info.hpp"
#include <vector>
struct t0 { using type = int; };
struct t1 { using type = int; };
struct t2 { using type = std::string; };
struct model { std::vector<std::pair<int, int>> st; }; // tag, value; last is newest
static const int* top(const model& m, int tag)
{
    for (size_t i = m.st.size(); i-- > 0;)
        if (m.st[i].first == tag) return &m.st[i].second;
    return nullptr;
}
static void pop(model& m, int tag)
{
    for (size_t i = m.st.size(); i-- > 0;)
        if (m.st[i].first == tag) { m.st.erase(m.st.begin() + (long)i); return; }
}
static std::string text(int v) { return std::string(1, (char)v); }
static void same(const kl::exception_info& x, const model& m, const char* msg)
{
    auto a = x.get<t0>();
    auto b = x.get<t1>();
    auto c = x.get<t2>();
    auto ma = top(m, 0), mb = top(m, 1), mc = top(m, 2);
    CHECKM(!a == !ma && (!a || *a == *ma), msg);
    CHECKM(!b == !mb && (!b || *b == *mb), msg);
    CHECKM(!c == !mc && (!c || *c == text(*mc)), msg);
}
struct base_error : std::exception { int tag; explicit base_error(int t) : tag(t) {} };
struct derived_error : base_error { using base_error::base_error; };
extern "C" void kls_harness()
{
    static const char file[] = "f.cpp", fn[] = "fn";
#ifdef B_COPY
    // an entry that is not the newest one is removed from an object that has been copied
    kl::exception_info a;
    int v = kls::sym<int>("v"), w = kls::sym<int>("w");
    a.set<t0>(v);
    a.set<t1>(w);
    kl::exception_info b(a);
    kl::exception_info& o = kls::choose("which", 2) ? a : b;
    o.unset<t0>();
    CHECKM(!o.get<t0>() && o.get<t1>() && *o.get<t1>() == w, "the entry is gone");
    kl::exception_info& k = &o == &a ? b : a;
    CHECKM(k.get<t1>() && *k.get<t1>() == w, "the copy keeps its newest entry");
    COVER("end");
    CHECKM(k.get<t0>() && *k.get<t0>() == v, "unset of an entry that is not the newest one changes a copy");
    return;
#endif
    {
        int line = kls::sym<int>("line");
        kl::exception_info x(file, line, fn), y;
        model mx, my;
        bool shared = false; // y was copied from x
        bool risky = false;
        for (int k = 0; k < B_OPS; ++k) {
            bool on_y = kls::choose("which", 2);
            kl::exception_info& o = on_y ? y : x;
            model& m = on_y ? my : mx;
            unsigned tag = kls::choose("tag", 3);
            switch (kls::choose("op", 3)) {
            case 0: {
                int v = kls::sym<int>("v");
                kl::exception_info* r;
                if (tag == 0) r = &o.set<t0>(v);
                else if (tag == 1) { const int c = v; r = &o.set<t1>(c); }
                else { v &= 0x7f; r = &o.set<t2>(text(v)); }
                CHECKM(r == &o, "set() is chainable");
                m.st.push_back({(int)tag, v});
                break;
            }
            case 1:
                // removing something that is not the newest entry relinks a node a copy may share
                if (shared && top(m, (int)tag) && m.st.back().first != (int)tag) risky = true;
                CHECKM(&(tag == 0 ? o.unset<t0>() : tag == 1 ? o.unset<t1>() : o.unset<t2>()) == &o, "unset() is chainable");
                pop(m, (int)tag);
                break;
            default:
                if (tag == 0) { y = x; my = mx; shared = true; }
                else if (tag == 1) { kl::exception_info z(x); x = z; }
                else { kl::exception_info z(std::move(x)); x = std::move(z); }
            }
#ifndef B_COPY
            kls_assume(!risky); // explored by its own harness
#endif
            if (risky) {
                same(x, mx, "unset of an entry that is not the newest one changes a copy");
                same(y, my, "unset of an entry that is not the newest one changes a copy");
            } else {
                same(x, mx, "get() returns the newest value set for the tag");
                same(y, my, "get() returns the newest value set for the tag");
            }
        }
        CHECKM(x.file() == file && x.line() == line && x.function() == fn, "the location is kept");
        // throwing with it
        int t = kls::sym<int>("payload");
        bool der = kls::choose("derived", 2), lv = kls::choose("lvalue", 2);
        int caught = 0;
        try {
            if (der) {
                derived_error e(t);
                if (lv) kl::throw_with_info(e, x);
                else kl::throw_with_info(derived_error(t), kl::exception_info(x));
            } else if (lv) {
                base_error e(t);
                kl::throw_with_info(e, x);
            } else
                kl::throw_with_info(base_error(t), kl::exception_info(x));
        } catch (const derived_error& e) {
            ++caught;
            CHECKM(der && e.tag == t, "caught as its own type with its content");
            auto* i = kl::get_exception_info(e);
            CHECKM(i != nullptr, "information is attached");
            if (!risky) same(*i, mx, "the thrown exception carries the information");
            CHECKM(i->line() == line, "the location travels with the exception");
        } catch (base_error& e) {
            ++caught;
            CHECKM(!der && e.tag == t, "caught as its base with its content");
            auto* i = kl::get_exception_info(e);
            CHECKM(i != nullptr, "information is attached");
            if (!risky) same(*i, mx, "the thrown exception carries the information");
        }
        CHECKM(caught == 1, "exactly one handler ran");
        struct own_error : base_error, kl::exception_info { // carries information by itself
            using base_error::base_error;
        } own(t);
        static_cast<kl::exception_info&>(own) = x;
        const base_error& as_base = own;
        auto* oi = kl::get_exception_info(as_base);
        CHECKM(oi == static_cast<const kl::exception_info*>(&own), "an exception's own information is found");
        CHECKM(kl::get_exception_info(static_cast<base_error&>(own)) == oi, "an exception's own information is found");
        base_error plain(t);
        CHECKM(kl::get_exception_info(plain) == nullptr, "an exception thrown without information has none");
        if (!risky) same(x, mx, "throwing leaves the information as it was");
        COVER("end");
    }
    CHECKM(kls_heap_objects() == 0, "nothing leaks");
}
