// C09: the modification tracker against its definition: the generation of the last
// notification about the path itself, a descendant of it, or a replaced subtree around it.
#include "kls.h"
#include "kl/resource.hpp"
#include <string>
#include <vector>
using kl::resources::modification_tracker;
using gen = modification_tracker::generation;
typedef std::vector<std::string> segs;
struct event {
    segs p;
    bool subtree;
    uint64_t g;
};
static bool is_prefix(const segs& a, const segs& b)
{
    if (a.size() > b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) return false;
    return true;
}
// a path of up to B_DEPTH segments; segments come from a small alphabet chosen so that one is a
// textual prefix of another, or consist of one arbitrary byte
static segs gen_path(const char* name)
{
    segs s;
    size_t n = kls::choose(name, B_DEPTH + 1);
    for (size_t i = 0; i < n; ++i) {
#ifdef B_BYTES
        char c = (char)kls_sym("b", 8);
        kls_assume(c != '/' && c != '%' && c != '.');
        s.push_back(std::string(1, c));
#else
        static const char* const alpha[] = {"a", "ab", "b"};
        s.push_back(alpha[kls::choose("seg", 3)]);
#endif
    }
    return s;
}
static kl::path mk(const segs& s)
{
    std::string t;
    for (auto& x : s) { t += '/'; t += x; }
    return kl::path(t);
}
extern "C" void kls_harness()
{
    modification_tracker t;
    std::vector<event> h;
    const uint64_t g0 = (uint64_t)t.current();
    uint64_t last = g0;
    std::vector<uint64_t> seen{g0};
    for (int i = 0; i < B_OPS; ++i) {
        event e;
        e.p = gen_path("depth");
        e.subtree = kls::choose("sub", 2);
        kl::path p = mk(e.p);
        CHECKM(p.size() == e.p.size(), "harness: path");
        gen g = kls::choose("view", 2) ? t.notify_changed(p.view(), e.subtree) : e.subtree ? t.notify_changed(p, true) : t.notify_changed(p);
        e.g = (uint64_t)g;
        CHECKM(e.g > last && t.current() == g, "every change gets a new, larger generation");
        last = e.g;
        seen.push_back(last);
        h.push_back(e);
    }
    segs q = gen_path("qdepth");
    kl::path pq = mk(q);
    uint64_t want = 0;
    for (auto& e : h)
        if (is_prefix(q, e.p) || (e.subtree && is_prefix(e.p, q))) want = e.g;
    uint64_t got = (uint64_t)t.changed_at(pq);
    CHECKM(got == want && t.changed_at(pq.view()) == t.changed_at(pq), "changed_at is the generation of the last change at, below or around the path");
    for (uint64_t s : seen)
        CHECKM(t.changed_since(pq, (gen)s) == (want > s) && t.changed_since(pq.view(), (gen)s) == (want > s), "changed_since reports exactly the changes after that generation");
    CHECKM((uint64_t)t.current() == last, "asking changes nothing");
    if (want) COVER("changed");
    else COVER("untouched");
}
