// C17/C42: an optional is told apart from what it holds: empty texts, lists, maps and objects, zero and
// false are values, only null and a missing member are not.
#ifdef B_YAML
#include "ymodel.hpp"
#include "kl/yaml.hpp"
namespace ns = kl::yaml;
typedef YAML::Node tree;
#else
#include "jmodel.hpp"
#include "kl/json.hpp"
namespace ns = kl::json;
typedef rapidjson::Value tree;
#endif
#include "kl/reflect_struct.hpp"
#include <map>
#include <optional>
struct In {
    std::optional<int> a;
};
KL_REFLECT_STRUCT(In, a)
struct O {
    std::optional<std::string> s;
    std::optional<std::vector<int>> v;
    std::optional<std::map<std::string, int>> m;
    std::optional<bool> b;
    std::optional<int> n;
    std::optional<In> in;
};
KL_REFLECT_STRUCT(O, s, v, m, b, n, in)
enum { ABSENT, NUL, EMPTY, FULL };
static O used()
{
    O o;
    o.s = "old";
    o.v = std::vector<int>{7};
    o.m = std::map<std::string, int>{{"old", 1}};
    o.b = true;
    o.n = 5;
    o.in = In{3};
    return o;
}
static void check(const O& o, const unsigned (&st)[6], const std::string& t, int k, bool patched, bool was)
{
    auto want = [&](unsigned i) { return st[i] >= EMPTY || (st[i] == ABSENT && patched && was); };
    CHECK(o.s.has_value() == want(0));
    CHECK(o.v.has_value() == want(1));
    CHECK(o.m.has_value() == want(2));
    CHECK(o.b.has_value() == want(3));
    CHECK(o.n.has_value() == want(4));
    CHECK(o.in.has_value() == want(5));
    if (st[0] == EMPTY) CHECK(o.s->empty());
    if (st[0] == FULL) CHECK(*o.s == t);
    if (st[1] == EMPTY) CHECK(o.v->empty());
    if (st[1] == FULL) CHECK(o.v->size() == 1 && (*o.v)[0] == k);
    if (st[2] == EMPTY) CHECK(o.m->empty() || (patched && was));
    if (st[2] == FULL) CHECK(o.m->at("k") == k);
    if (st[3] >= EMPTY) CHECK(*o.b == (st[3] == FULL));
    if (st[4] == EMPTY) CHECK(*o.n == 0);
    if (st[4] == FULL) CHECK(*o.n == k);
    if (st[5] == EMPTY && !(patched && was)) CHECK(!o.in->a);
    if (st[5] == EMPTY && patched && was) CHECK(o.in->a && *o.in->a == 3);
    if (st[5] == FULL) CHECK(o.in->a && *o.in->a == k);
    if (st[0] == ABSENT && patched && was) CHECK(*o.s == "old");
    if (st[1] == ABSENT && patched && was) CHECK(o.v->size() == 1 && (*o.v)[0] == 7);
}
extern "C" void kls_harness()
{
    unsigned st[6];
    static const char* const names[] = {"s", "v", "m", "b", "n", "in"};
    const int k = kls::sym<int>("k");
    const std::string t = any_text("t", 2);
    J j = jobj();
    for (unsigned i = 0; i < 6; ++i) {
        st[i] = kls::choose("state", 4);
        if (st[i] == ABSENT) continue;
        J x;
        if (st[i] != NUL) {
            const bool full = st[i] == FULL;
            if (i == 0) x = jstr(full ? t : std::string());
            else if (i == 1) { x = jarr(); if (full) x.a.push_back(jnum(k)); }
            else if (i == 2) { x = jobj(); if (full) x.o.push_back({"k", jnum(k)}); }
            else if (i == 3) x = jbool(full);
            else if (i == 4) x = jnum(full ? k : 0);
            else { x = jobj(); if (full) x.o.push_back({"a", jnum(k)}); }
        }
        j.o.push_back({names[i], x});
    }
#ifdef B_YAML
    const tree d = to_yaml(j);
#else
    rapidjson::Document doc;
    const tree d = to_rj(j, doc.GetAllocator());
#endif
    switch (kls::choose("how", 5)) {
    case 0: check(ns::deserialize<O>(d), st, t, k, false, false); break;
    case 1: {
        O o = used();
        ns::deserialize(o, d);
        check(o, st, t, k, false, true);
        break;
    }
    case 2: {
        O o;
        ns::patch(o, d);
        check(o, st, t, k, true, false);
        break;
    }
    case 3: {
        O o = used();
        ns::patch(o, d);
        check(o, st, t, k, true, true);
        break;
    }
    default: {
        // written and read back, what is there stays there and what is not does not
        const O o = ns::deserialize<O>(d);
#ifdef B_YAML
        ns::serialize_context ctx(kls::choose("skip", 2));
        const tree w = ns::serialize(o, ctx);
#else
        ns::owning_serialize_context ctx(kls::choose("skip", 2));
        const tree w = ns::serialize(o, ctx);
#endif
        check(ns::deserialize<O>(w), st, t, k, false, false);
    }
    }
    COVER("end");
}
