// C07: path parsing against an independent normalization reference.
// C08: accessors of path and path_view agree with the list of segments.
#include "kls.h"
#include "kl/path.hpp"
#include <memory>
#include <string>
#include <vector>
struct xtab {
    signed char v[256];
    xtab()
    {
        for (int i = 0; i < 256; ++i) v[i] = -1;
        for (int i = 0; i < 10; ++i) v['0' + i] = (signed char)i;
        for (int i = 0; i < 6; ++i) v['a' + i] = v['A' + i] = (signed char)(10 + i);
    }
};
struct ref {
    std::vector<std::string> seg;
    bool bad = false;
};
static ref parse(const unsigned char* p, size_t n)
{
    static xtab x;
    ref r;
    size_t i = 0;
    while (i <= n) {
        size_t j = i;
        while (j < n && p[j] != '/') ++j;
        size_t len = j - i;
        if (len == 0) {
        } else if (len == 1 && p[i] == '.') {
        } else if (len == 2 && p[i] == '.' && p[i + 1] == '.') {
            if (!r.seg.empty()) r.seg.pop_back();
        } else {
            std::string s;
            for (size_t k = i; k < j;) {
                if (p[k] != '%') {
                    s += (char)p[k++];
                    continue;
                }
                if (k + 2 >= j || x.v[p[k + 1]] < 0 || x.v[p[k + 2]] < 0) {
                    r.bad = true;
                    return r;
                }
                unsigned c = (unsigned)x.v[p[k + 1]] * 16 + (unsigned)x.v[p[k + 2]];
                if (c == '/') {
                    r.bad = true;
                    return r;
                }
                s += (char)c;
                k += 3;
            }
            r.seg.push_back(s);
        }
        i = j + 1;
    }
    return r;
}
static std::string join(const std::vector<std::string>& v, size_t a, size_t b)
{
    std::string s;
    for (size_t i = a; i < b; ++i) {
        if (i != a) s += '/';
        s += v[i];
    }
    return s;
}
static void check_parse(const kl::path& p, const ref& r)
{
    CHECKM(p.size() == r.seg.size(), "number of segments");
    CHECKM(p.empty() == r.seg.empty(), "empty()");
    for (size_t i = 0; i < r.seg.size(); ++i) CHECKM(p[i] == r.seg[i], "segment text");
    CHECKM(p.joined(0) == join(r.seg, 0, r.seg.size()), "joined(0) is the resolved path");
}
static void check_access(const kl::path& p, const ref& r)
{
    size_t n = r.seg.size();
    for (size_t i = 0; i <= n + 1; ++i) {
        if (i < n) CHECKM(p.joined(i) == join(r.seg, i, n), "joined(k) is the text of the segments from k on");
        else CHECKM(p.joined(i).empty(), "joined(k) past the end is empty");
    }
    kl::path_view v = p.view();
    size_t a = 0, b = n, drops = 0;
    // any sequence of drops, chosen by the solver
    while (true) {
        CHECKM(v.size() == b - a && v.empty() == (a == b), "view size");
        for (size_t i = a; i < b; ++i) CHECKM(v[i - a] == r.seg[i], "view element");
        CHECKM(v.prefix(0).empty(), "prefix(0)");
        for (size_t i = 1; i <= b - a; ++i) CHECKM(v.prefix(i) == join(r.seg, 0, a + i), "prefix(k) is the absolute text up to the k-th segment");
        if (a == b) break;
        CHECKM(v.front() == r.seg[a], "front()");
#ifdef B_LONG
        if (drops++ == 3) break;
#endif
        unsigned d = kls::choose("drop", 3);
        if (d == 0) break;
        if (d == 1) {
            v = v.drop_front();
            ++a;
        } else {
            v = v.drop_back();
            --b;
        }
    }
}
extern "C" void kls_harness()
{
#ifdef B_LONG
    // more segments than the inline storage holds; the shape is chosen, the text is symbolic
    unsigned n = B_LONG - 1 + kls::choose("n", 3);
    std::string text;
    for (unsigned i = 0; i < n; ++i) {
        text += '/';
        char c = (char)kls_sym("c", 8);
        if (i != n / 2 && i + 1 != n) kls_assume(c >= 'a' && c <= 'z'); // the others are unrestricted
        text += c;
    }
    for (unsigned k = kls::choose("pops", 4); k > 0; --k) text += "/..";
    const unsigned char* data = (const unsigned char*)text.data();
    size_t len = text.size();
#else
    size_t len = kls::choose("len", B_LEN + 1);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[len]);
    kls::sym_bytes(buf.get(), len, "in");
    const unsigned char* data = buf.get();
#endif
    ref r = parse(data, len);
    kl::path p;
    // the object may have held something else before
    unsigned prior = kls::choose("prior", 2);
    if (prior) p.set("/x/yy");
    bool threw = false;
    try {
        p.set(std::string_view((const char*)data, len));
    } catch (const kl::path_parse_error& e) {
        threw = true;
        CHECK(e.what() && e.what()[0]);
    }
    CHECKM(threw == r.bad, "a path is rejected exactly when a segment is badly percent-encoded or encodes '/'");
    if (r.bad) {
        COVER("rejected");
        p.set("q/r");
        CHECKM(p.size() == 2 && p[0] == "q" && p[1] == "r" && p.joined(0) == "q/r", "usable again after a rejected path");
        return;
    }
#ifdef B_ACCESS
    check_access(p, r);
    kl::path q(p), m(std::move(p));
    CHECKM(q.joined(0) == join(r.seg, 0, r.seg.size()) && m.joined(0) == q.joined(0), "copies and moved-to paths keep their segments");
    m.clear();
    CHECKM(m.empty() && m.size() == 0 && m.joined(0).empty(), "clear()");
#else
    check_parse(p, r);
    kl::path q(std::string_view((const char*)data, len));
    check_parse(q, r);
#endif
    COVER("accepted");
}
