// C33: joining prints every element once, delimiters only between elements.
#include "kls.h"
#include "kl/stream_join.hpp"
#include <memory>
#include <algorithm>
#include <list>
#include <string>
#include <vector>
struct sink { // records every insertion
    std::vector<std::string> out;
};
static sink& operator<<(sink& s, const char* t) { s.out.push_back(std::string("S") + t); return s; }
static sink& operator<<(sink& s, const std::string& t) { s.out.push_back("S" + t); return s; }
static sink& operator<<(sink& s, unsigned char v) { s.out.push_back(std::string("V") + (char)v); return s; }
static void want_join(const sink& s, const std::vector<unsigned char>& v, const std::string& d, const std::string* empty)
{
    std::vector<std::string> w;
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) w.push_back("S" + d);
        w.push_back(std::string("V") + (char)v[i]);
    }
    if (v.empty() && empty) w.push_back("S" + *empty);
    CHECKM(s.out.size() == w.size(), "number of pieces written");
    for (size_t i = 0; i < w.size(); ++i) CHECKM(s.out[i] == w[i], "pieces written in order");
}
extern "C" void kls_harness()
{
    size_t n = kls::choose("n", B_LEN + 1);
    std::vector<unsigned char> v;
    for (size_t i = 0; i < n; ++i) v.push_back((unsigned char)kls_sym("v", 8));
    char d[3] = {}, e[3] = {};
    size_t dl = kls::choose("dl", 3), el = kls::choose("el", 3);
    for (size_t i = 0; i < dl; ++i) { d[i] = (char)kls_sym("d", 8); kls_assume(d[i] != 0); }
    for (size_t i = 0; i < el; ++i) { e[i] = (char)kls_sym("e", 8); kls_assume(e[i] != 0); }
    std::list<unsigned char> l(v.begin(), v.end());
    unsigned mode = kls::choose("mode", 9);
    std::string ds = mode & 1 ? std::string(d) : ", ", es = mode & 2 ? std::string(e) : ".";
    sink s;
    if (mode < 4) {
        auto j = kl::stream_join(v);
        auto k = kl::stream_join(l);
        if (mode & 1) { j.set_delimiter(d); k.set_delimiter(d); }
        if (mode & 2) { j.set_empty_string(e); k.set_empty_string(e); }
        CHECKM(&(s << j) == &s, "streaming returns the stream");
        want_join(s, v, ds, &es);
        sink t;
        t << k;
        want_join(t, v, ds, &es);
        sink u; // a joiner can be streamed again
        u << j;
        want_join(u, v, ds, &es);
    } else {
        std::string dd(d);
        auto it = kl::make_outstream_joiner(s, dd);
        if (mode == 4) std::copy(l.begin(), l.end(), it);
        else if (mode == 6) { // in two goes, through the returned iterator
            auto mid = l.begin();
            if (n) ++mid;
            auto it2 = std::copy(l.begin(), mid, it);
            std::copy(mid, l.end(), it2);
        } else if (mode == 7) { // assigned and copied on the way
            auto other = kl::make_outstream_joiner(s, dd);
            for (unsigned char c : v) {
                *it++ = c;
                other = it;
                auto third(other);
                it = std::move(third);
            }
        } else if (mode == 8) {
            sink unused;
            auto other = kl::make_outstream_joiner(unused, std::string("no"));
            other = it;
            for (unsigned char c : v) *other++ = c;
            CHECKM(unused.out.empty(), "an assigned joiner writes to its new stream");
        }
        else
            for (unsigned char c : v) { *it = c; ++it; }
        want_join(s, v, dd, nullptr);
    }
    COVER("end");
}
