// C10/C11/C12: one operation on a resource in an arbitrary valid state, against a model
// written over a schema of its own.  B_ROOT picks the resource, B_CLASS what is explored.
#include "kls.h"
#include "refjson.hpp"
#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"
#include <array>
#include <deque>
#include <map>
#include <optional>
namespace attr = kl::resources::attributes;
namespace sa = kl::serialization::attributes;
using kl::resources::status_code;
#ifndef B_MAX
#define B_MAX 2
#endif
struct weird {}; // a validator may throw anything
struct Leaf {
    int x = 0, y = 1;
    template <typename C> void validate_resource(C&) const
    {
        if (x == y) throw kl::resources::validation_error("x and y must differ");
    }
};
KL_REFLECT_STRUCT(Leaf, x, (y, sa::rename("why")))
struct Box {
    int v = 0, lock = 0;
    Leaf in;
    std::vector<int> items;
};
KL_REFLECT_STRUCT(Box, v, (lock, attr::read_only), in, items)
struct Keyed {
    std::string id;
    int v = 0;
    Leaf in;
};
KL_REFLECT_STRUCT(Keyed, id, v, in)

// ---- the model's view of a type and of a value
enum skind { SINT, SSTR, SOBJ, SVEC, SMAP, SOPT };
struct S {
    skind k = SINT;
    bool ro = false, sro = false;
    size_t fixed = 0; // SVEC: number of elements that cannot change
    int key = -1;   // SVEC: elements are addressed by this field
    int rule = 0;   // see invalid()
    std::vector<std::pair<std::string, S>> f; // SOBJ
    std::vector<S> e;                         // element of SVEC, SMAP, SOPT
};
struct V {
    int64_t i = 0;
    std::string s;
    std::vector<V> c;              // fields, elements, or the optional's content
    std::vector<std::string> keys; // SMAP, sorted
};
static S s_of(const int*) { return S(); }
static S s_of(const std::string*) { S s; s.k = SSTR; return s; }
static S s_of(const Leaf*) { S s; s.k = SOBJ; s.rule = 1; s.f = {{"x", s_of((int*)0)}, {"why", s_of((int*)0)}}; return s; }
template <typename T> static S s_of(const std::vector<T>*) { S s; s.k = SVEC; s.e = {s_of((T*)0)}; return s; }
template <typename T, size_t N> static S s_of(const std::array<T, N>*) { S s; s.k = SVEC; s.fixed = N; s.e = {s_of((T*)0)}; return s; }
template <typename T> static S s_of(const std::deque<T>*) { return s_of((std::vector<T>*)0); }
template <typename T> static S s_of(const std::map<std::string, T>*) { S s; s.k = SMAP; s.e = {s_of((T*)0)}; return s; }
template <typename T> static S s_of(const std::optional<T>*) { S s; s.k = SOPT; s.e = {s_of((T*)0)}; return s; }
static S ro(S s) { s.ro = true; return s; }
static S sro(S s) { s.sro = true; return s; }
static S s_of(const Box*)
{
    S s;
    s.k = SOBJ;
    s.f = {{"v", s_of((int*)0)}, {"lock", ro(s_of((int*)0))}, {"in", s_of((Leaf*)0)}, {"items", s_of((std::vector<int>*)0)}};
    return s;
}
static S s_of(const Keyed*)
{
    S s;
    s.k = SOBJ;
    s.f = {{"id", s_of((std::string*)0)}, {"v", s_of((int*)0)}, {"in", s_of((Leaf*)0)}};
    return s;
}
static V v_of(const int& x) { V v; v.i = x; return v; }
static V v_of(const std::string& x) { V v; v.s = x; return v; }
static V v_of(const Leaf& x) { V v; v.c = {v_of(x.x), v_of(x.y)}; return v; }
template <typename T> static V v_of(const std::vector<T>& x) { V v; for (auto& e : x) v.c.push_back(v_of(e)); return v; }
template <typename T, size_t N> static V v_of(const std::array<T, N>& x) { V v; for (auto& e : x) v.c.push_back(v_of(e)); return v; }
template <typename T> static V v_of(const std::deque<T>& x) { V v; for (auto& e : x) v.c.push_back(v_of(e)); return v; }
template <typename T> static V v_of(const std::map<std::string, T>& x)
{
    V v;
    for (auto& e : x) { v.keys.push_back(e.first); v.c.push_back(v_of(e.second)); }
    return v;
}
template <typename T> static V v_of(const std::optional<T>& x) { V v; if (x) v.c.push_back(v_of(*x)); return v; }
static V v_of(const Box& x) { V v; v.c = {v_of(x.v), v_of(x.lock), v_of(x.in), v_of(x.items)}; return v; }
static V v_of(const Keyed& x) { V v; v.c = {v_of(x.id), v_of(x.v), v_of(x.in)}; return v; }
static bool same(const V& a, const V& b)
{
    if (a.c.size() != b.c.size() || a.keys != b.keys || a.s != b.s) return false;
    bool r = a.i == b.i;
    for (size_t i = 0; i < a.c.size(); ++i) r &= same(a.c[i], b.c[i]);
    return r;
}
static V v_def(const S& s)
{
    V v;
    if (s.k == SOBJ)
        for (auto& f : s.f) v.c.push_back(v_def(f.second));
    if (s.fixed) v.c.assign(s.fixed, v_def(s.e[0]));
    if (s.rule == 1) v.c[1].i = 1; // Leaf's y starts at 1
    return v;
}

// ---- arbitrary values
static int any_int() { return kls::sym<int>("int"); }
static std::string any_key(const char* n) { static const char* const k[] = {"a", "b", "c"}; return k[kls::choose(n, 3)]; }
static void fill(int& x) { x = any_int(); }
static void fill(Leaf& l) { l.x = any_int(); l.y = any_int(); kls_assume(l.x != l.y); }
template <typename T> static void fill(std::vector<T>& v)
{
    size_t n = kls::choose("n", B_MAX + 1);
    for (size_t i = 0; i < n; ++i) { T t; fill(t); v.push_back(t); }
}
static void fill(std::vector<Keyed>& v);
template <typename T> static void fill(std::map<std::string, T>& v)
{
    size_t n = kls::choose("n", B_MAX + 1);
    static const char* const k[] = {"a", "b", "c"};
    for (size_t i = 0; i < n; ++i) { T t; fill(t); v.emplace(k[i], t); }
}
template <typename T> static void fill(std::optional<T>& v)
{
    if (kls::choose("has", 2)) { T t; fill(t); v = t; }
}
static void fill(Box& b) { fill(b.v); fill(b.lock); fill(b.in); b.items.push_back(any_int()); }
static void fill(std::vector<Keyed>& v)
{
    size_t n = kls::choose("n", B_MAX + 1);
    static const char* const k[] = {"b", "a", "c"};
    for (size_t i = 0; i < n; ++i) {
        Keyed t;
        t.id = k[i];
        fill(t.v);
        fill(t.in);
        v.push_back(t);
    }
}
#if B_ROOT == 1
struct Root {
    int value = 0;
    Box box, rbox, sbox;
    template <typename C> void validate_resource(C&) const
    {
        if (value == 77) throw weird();
    }
};
KL_REFLECT_STRUCT(Root, value, box, (rbox, attr::read_only), (sbox, attr::subtree_read_only))
static S s_of(const Root*)
{
    S s;
    s.k = SOBJ;
    s.rule = 2;
    S b = s_of((Box*)0);
    s.f = {{"value", s_of((int*)0)}, {"box", b}, {"rbox", ro(b)}, {"sbox", sro(b)}};
    return s;
}
static V v_of(const Root& r) { V v; v.c = {v_of(r.value), v_of(r.box), v_of(r.rbox), v_of(r.sbox)}; return v; }
static void fill(Root& r) { fill(r.value); kls_assume(r.value != 77); fill(r.box); fill(r.rbox); fill(r.sbox); }
static const char* const paths[] = {"", "value", "value/x", "box", "box/v", "box/lock", "box/in", "box/in/x", "box/in/why", "box/in/y", "box/items", "box/items/0", "box/items/1", "box/items/00", "box/nope",
                                    "rbox", "rbox/v", "rbox/lock", "rbox/in/x", "rbox/items", "rbox/items/0", "sbox", "sbox/v", "sbox/in", "sbox/in/x", "sbox/items", "sbox/items/0", "nope", "box/"};
#elif B_ROOT == 2
struct Root {
    std::vector<int> list;
    std::vector<Leaf> leaves, rleaves, sleaves;
    std::map<std::string, Leaf> map;
    std::map<std::string, int> smap;
};
KL_REFLECT_STRUCT(Root, list, leaves, (rleaves, attr::read_only), (sleaves, attr::subtree_read_only), map, (smap, attr::subtree_read_only))
static S s_of(const Root*)
{
    S s;
    s.k = SOBJ;
    S l = s_of((std::vector<Leaf>*)0);
    s.f = {{"list", s_of((std::vector<int>*)0)}, {"leaves", l}, {"rleaves", ro(l)}, {"sleaves", sro(l)}, {"map", s_of((std::map<std::string, Leaf>*)0)}, {"smap", sro(s_of((std::map<std::string, int>*)0))}};
    return s;
}
static V v_of(const Root& r) { V v; v.c = {v_of(r.list), v_of(r.leaves), v_of(r.rleaves), v_of(r.sleaves), v_of(r.map), v_of(r.smap)}; return v; }
static const char* const paths[] = {"list", "list/0", "list/1", "list/01", "list/-1", "list/x", "list/0/x", "leaves", "leaves/0", "leaves/1", "leaves/1/x", "leaves/2", "leaves/0/why", "leaves/00", "leaves/0x", "leaves/18446744073709551616",
                                    "rleaves", "rleaves/0", "rleaves/0/x", "sleaves", "sleaves/0", "sleaves/0/x", "map", "map/a", "map/b", "map/b/x", "map/c", "map/A", "smap", "smap/a", ""};
static void fill(Root& r, unsigned path)
{
    const char* p = paths[path];
    // the part the path is about varies freely, the rest is small
    auto starts = [&](const char* n) { size_t i = 0; while (n[i] && p[i] == n[i]) ++i; return !n[i]; };
    r.list = {any_int()};
    r.leaves.emplace_back();
    fill(r.leaves[0]);
    r.rleaves.emplace_back();
    r.sleaves.emplace_back();
    r.map["a"];
    fill(r.map["b"]);
    r.smap["a"] = any_int();
    if (starts("list")) { r.list.clear(); fill(r.list); }
    if (starts("leaves")) { r.leaves.clear(); fill(r.leaves); }
    if (starts("rleaves")) { r.rleaves.clear(); fill(r.rleaves); }
    if (starts("sleaves")) { r.sleaves.clear(); fill(r.sleaves); }
    if (starts("map")) { r.map.clear(); fill(r.map); }
}
#elif B_ROOT == 3
struct Root {
    int n = 0;
    std::vector<Keyed> keyed, skeyed;
};
KL_REFLECT_STRUCT(Root, n, (keyed, attr::child_key<&Keyed::id>), (skeyed, attr::child_key<&Keyed::id>, attr::subtree_read_only))
static S keyed(S s) { s.key = 0; return s; }
static S s_of(const Root*)
{
    S s;
    s.k = SOBJ;
    S l = keyed(s_of((std::vector<Keyed>*)0));
    s.f = {{"n", s_of((int*)0)}, {"keyed", l}, {"skeyed", sro(l)}};
    return s;
}
static V v_of(const Root& r) { V v; v.c = {v_of(r.n), v_of(r.keyed), v_of(r.skeyed)}; return v; }
static void fill(Root& r) { fill(r.n); fill(r.keyed); r.skeyed.emplace_back(); r.skeyed[0].id = "a"; }
static const char* const paths[] = {"keyed", "keyed/a", "keyed/b", "keyed/c", "keyed/a/id", "keyed/a/v", "keyed/b/in", "keyed/b/in/x", "keyed/a/id/x", "keyed/0", "skeyed", "skeyed/a", "skeyed/a/v", "skeyed/b", "", "n"};
#elif B_ROOT == 5
// keys that are not the first field, not text, or of a type other fields share; nested keyed collections
struct Tag {
    int rank = 0;
    std::string label, name;
};
KL_REFLECT_STRUCT(Tag, rank, label, (name, sa::rename("called")))
struct Group {
    std::string id;
    std::deque<Tag> tags;
};
KL_REFLECT_STRUCT(Group, id, (tags, attr::child_key<&Tag::name>))
struct Root {
    std::vector<Group> groups;
    std::deque<Tag> tags;
    std::array<int, 2> arr{};
    std::map<std::string, std::vector<int>> mv;
};
KL_REFLECT_STRUCT(Root, (groups, attr::child_key<&Group::id>), (tags, attr::child_key<&Tag::name>), arr, mv)
static S keyed(S s, int k) { s.key = k; return s; }
static S s_of(const Tag*)
{
    S s;
    s.k = SOBJ;
    s.f = {{"rank", s_of((int*)0)}, {"label", s_of((std::string*)0)}, {"called", s_of((std::string*)0)}};
    return s;
}
static S s_of(const Group*)
{
    S s;
    s.k = SOBJ;
    s.f = {{"id", s_of((std::string*)0)}, {"tags", keyed(s_of((std::deque<Tag>*)0), 2)}};
    return s;
}
static S s_of(const Root*)
{
    S s;
    s.k = SOBJ;
    s.f = {{"groups", keyed(s_of((std::vector<Group>*)0), 0)}, {"tags", keyed(s_of((std::deque<Tag>*)0), 2)}, {"arr", s_of((std::array<int, 2>*)0)}, {"mv", s_of((std::map<std::string, std::vector<int>>*)0)}};
    return s;
}
static V v_of(const Tag& t) { V v; v.c = {v_of(t.rank), v_of(t.label), v_of(t.name)}; return v; }
static V v_of(const Group& t) { V v; v.c = {v_of(t.id), v_of(t.tags)}; return v; }
static V v_of(const Root& r) { V v; v.c = {v_of(r.groups), v_of(r.tags), v_of(r.arr), v_of(r.mv)}; return v; }
static const char* const paths[] = {"groups", "groups/a", "groups/b", "groups/a/id", "groups/a/tags", "groups/a/tags/a", "groups/a/tags/b", "groups/a/tags/b/called", "groups/a/tags/a/label", "groups/a/tags/a/rank", "tags", "tags/a", "tags/b", "tags/b/called", "tags/b/name", "tags/b/label", "tags/b/rank", "tags/0",
                                    "arr", "arr/0", "arr/1", "arr/2", "mv", "mv/a", "mv/b", "mv/a/0", "mv/a/1"};
static void fill(std::deque<Tag>& v)
{
    size_t n = kls::choose("n", B_MAX + 1);
    static const char* const k[] = {"b", "a", "c"};
    for (size_t i = 0; i < n; ++i) {
        Tag t;
        fill(t.rank);
        t.label = "a";
        t.name = k[i];
        v.push_back(t);
    }
}
static void fill(Root& r, unsigned path)
{
    const char* p = paths[path];
    r.groups.resize(kls::choose("groups", 3));
    for (size_t i = 0; i < r.groups.size(); ++i) r.groups[i].id = i ? "b" : "a";
    if (p[0] == 'g' && !r.groups.empty()) fill(r.groups[0].tags);
    if (p[0] == 't') fill(r.tags);
    for (auto& e : r.arr) fill(e);
    if (p[0] == 'm') fill(r.mv);
}
#elif B_ROOT == 6
// rules over several nodes: what an operation does may be refused by a validator anywhere above it
static bool g_need;
struct Item {
    std::string id;
    int v = 0;
};
KL_REFLECT_STRUCT(Item, id, v)
template <typename C> void validate_resource(const std::vector<Item>& l, C&)
{
    if (l.size() == 2 && l[0].v == l[1].v) throw kl::resources::validation_error("two items must differ");
}
template <typename C> void validate_resource(const std::optional<Item>& o, C&)
{
    if (!o && g_need) throw kl::resources::validation_error("an item is needed");
}
struct Part {
    std::vector<int> list;
    std::map<std::string, int> m;
    int bad = -1;
    template <typename C> void validate_resource(C&) const
    {
        if ((int)(list.size() + m.size()) == bad) throw kl::resources::validation_error("wrong number of parts");
    }
};
KL_REFLECT_STRUCT(Part, list, m, bad)
struct Root {
    Part part;
    std::vector<Item> items;
    std::optional<Item> opt;
    int odd = -1;
    template <typename C> void validate_resource(C&) const
    {
        if ((int)(items.size() + (opt ? 1 : 0)) == odd) throw weird();
    }
};
KL_REFLECT_STRUCT(Root, part, (items, attr::child_key<&Item::id>), opt, odd)
static S s_of(const Item*) { S s; s.k = SOBJ; s.f = {{"id", s_of((std::string*)0)}, {"v", s_of((int*)0)}}; return s; }
static S s_of(const Part*) { S s; s.k = SOBJ; s.rule = 3; s.f = {{"list", s_of((std::vector<int>*)0)}, {"m", s_of((std::map<std::string, int>*)0)}, {"bad", s_of((int*)0)}}; return s; }
static S s_of(const Root*)
{
    S s, items = s_of((std::vector<Item>*)0), opt = s_of((std::optional<Item>*)0);
    items.key = 0;
    items.rule = 5;
    opt.rule = 6;
    s.k = SOBJ;
    s.rule = 4;
    s.f = {{"part", s_of((Part*)0)}, {"items", items}, {"opt", opt}, {"odd", s_of((int*)0)}};
    return s;
}
static V v_of(const Item& t) { V v; v.c = {v_of(t.id), v_of(t.v)}; return v; }
static V v_of(const Part& t) { V v; v.c = {v_of(t.list), v_of(t.m), v_of(t.bad)}; return v; }
static V v_of(const Root& r) { V v; v.c = {v_of(r.part), v_of(r.items), v_of(r.opt), v_of(r.odd)}; return v; }
static const char* const paths[] = {"part", "part/list", "part/list/0", "part/list/1", "part/m", "part/m/a", "part/m/b", "part/bad", "items", "items/a", "items/b", "items/b/v", "items/b/id", "opt", "opt/v", "odd", ""};
static void fill(Item& t) { t.id = "a"; fill(t.v); }
static void fill(Root& r, unsigned path)
{
    const char* p = paths[path];
    g_need = p[0] != 'p' && kls::choose("need", 2);
    r.part.list = {any_int()};
    if (p[0] == 'p') { r.part.list.clear(); fill(r.part.list); fill(r.part.m); }
    r.part.bad = any_int();
    kls_assume((int)(r.part.list.size() + r.part.m.size()) != r.part.bad);
    if (p[0] != 'p') {
        size_t n = kls::choose("n", 3);
        for (size_t i = 0; i < n; ++i) {
            Item t;
            t.id = i ? "a" : "b";
            fill(t.v);
            r.items.push_back(t);
        }
        if (n == 2) kls_assume(r.items[0].v != r.items[1].v);
    }
    if (g_need || (p[0] != 'p' && kls::choose("has", 2))) { r.opt.emplace(); fill(*r.opt); }
    r.odd = any_int();
    kls_assume((int)(r.items.size() + (r.opt ? 1 : 0)) != r.odd);
}
#else
struct Root {
    std::optional<int> oi;
    std::optional<Leaf> ol, rol, sol;
    std::optional<std::vector<int>> ov;
    std::vector<std::optional<Leaf>> vo;
    std::vector<int> both;
};
KL_REFLECT_STRUCT(Root, oi, ol, (rol, attr::read_only), (sol, attr::subtree_read_only), ov, vo, (both, attr::read_only, attr::subtree_read_only))
static S s_of(const Root*)
{
    S s;
    s.k = SOBJ;
    S l = s_of((std::optional<Leaf>*)0);
    s.f = {{"oi", s_of((std::optional<int>*)0)}, {"ol", l}, {"rol", ro(l)}, {"sol", sro(l)}, {"ov", s_of((std::optional<std::vector<int>>*)0)}, {"vo", s_of((std::vector<std::optional<Leaf>>*)0)}, {"both", ro(sro(s_of((std::vector<int>*)0)))}};
    return s;
}
static V v_of(const Root& r) { V v; v.c = {v_of(r.oi), v_of(r.ol), v_of(r.rol), v_of(r.sol), v_of(r.ov), v_of(r.vo), v_of(r.both)}; return v; }
static const char* const paths[] = {"oi", "oi/x", "ol", "ol/x", "ol/why", "ol/z", "rol", "rol/x", "sol", "sol/x", "ov", "ov/0", "ov/1", "vo", "vo/0", "vo/0/x", "vo/1", "", "both", "both/0"};
static void fill(Root& r, unsigned path)
{
    const char* p = paths[path];
    auto starts = [&](const char* n) { return p[0] == n[0] && p[1] == n[1]; };
    r.both.push_back(any_int());
    if (starts("oi")) fill(r.oi);
    if (starts("ol") || !*p) fill(r.ol);
    if (starts("ro")) fill(r.rol);
    if (starts("so")) fill(r.sol);
    if (starts("ov") || !*p) fill(r.ov);
    if (starts("vo")) fill(r.vo);
}
#endif

// ---- bodies: well-formed for the node, with at most one thing wrong
static unsigned g_depth; // of collections
extern bool g_plain;
static size_t any_size(size_t max)
{
    return g_plain ? 1 : kls::choose("bn", (unsigned)(g_depth ? 2 : max + 1));
}
bool g_plain; // the part of a large body that is not varied
static J body(const S& s, bool& spoil)
{
    bool here = false;
    if (spoil && !g_plain) {
        here = kls::choose("wrong", 2);
        if (here) spoil = false;
    }
    switch (s.k) {
    case SINT:
        if (!here) return jint(any_int());
        if (kls::choose("big", 2)) {
            int64_t v = kls::sym<int64_t>("big");
            kls_assume(v < INT32_MIN || v > INT32_MAX);
            return jwide(v);
        }
        return jstr("1");
    case SSTR: return here ? J() : jstr(g_plain ? std::string("a") : any_key("str"));
    case SOBJ: {
        if (here && kls::choose("kind", 2)) return kls::choose("null", 2) ? J() : jint(1);
        unsigned drop = here ? kls::choose("drop", (unsigned)s.f.size()) : (unsigned)s.f.size();
        J j = jobj();
        bool was = g_plain;
        unsigned focus = s.f.size() > 4 || s.rule >= 3 ? kls::choose("focus", (unsigned)s.f.size()) : 99;
        for (unsigned i = 0; i < s.f.size(); ++i) {
            g_plain = was || (focus != 99 && focus != i) || s.f[i].first == "label";
            if (i != drop) j.o.push_back({s.f[i].first, body(s.f[i].second, spoil)});
        }
        g_plain = was;
        return j;
    }
    case SVEC: {
        if (here) return jobj();
        J j = jarr();
        size_t n = any_size(B_MAX + (s.fixed != 0));
        ++g_depth;
        for (size_t i = 0; i < n; ++i) j.a.push_back(body(s.e[0], spoil));
        --g_depth;
        return j;
    }
    case SMAP: {
        if (here) return jarr();
        J j = jobj();
        size_t n = any_size(B_MAX);
        ++g_depth;
        for (size_t i = 0; i < n; ++i) {
            std::string k = any_key("mkey");
            j.o.push_back({k, body(s.e[0], spoil)});
        }
        --g_depth;
        return j;
    }
    default:
        if (here) return J();
        return body(s.e[0], spoil);
    }
}

// ---- the model's operations
static bool deser(const S& s, V& out, const J& j, bool patch)
{
    static const J null;
    switch (s.k) {
    case SINT:
        if (j.k != JINT || (j.wide && (j.i < INT32_MIN || j.i > INT32_MAX))) return false;
        out.i = j.i;
        return true;
    case SSTR:
        if (j.k != JSTR) return false;
        out.s = j.s;
        return true;
    case SOBJ:
        if (j.k == JOBJ) {
            for (size_t i = 0; i < s.f.size(); ++i) {
                const J* m = jfind(j, s.f[i].first);
                if (!m && patch) continue;
                if (!deser(s.f[i].second, out.c[i], m ? *m : null, patch)) return false;
            }
            return true;
        }
        if (j.k == JARR) {
            if (j.a.size() > s.f.size()) return false;
            for (size_t i = 0; i < s.f.size(); ++i)
                if (!deser(s.f[i].second, out.c[i], i < j.a.size() ? j.a[i] : null, false)) return false;
            return true;
        }
        return false;
    case SVEC:
        if (j.k != JARR) return false;
        if (s.fixed && j.a.size() != s.fixed) return false; // elements here do not take null
        out.c.clear();
        for (auto& e : j.a) {
            V v = v_def(s.e[0]);
            if (!deser(s.e[0], v, e, false)) return false;
            out.c.push_back(v);
        }
        return true;
    case SMAP:
        if (j.k != JOBJ) return false;
        out.c.clear();
        out.keys.clear();
        for (auto& m : j.o) {
            V v = v_def(s.e[0]);
            if (!deser(s.e[0], v, m.second, false)) return false;
            size_t p = 0;
            while (p < out.keys.size() && out.keys[p] < m.first) ++p;
            if (p < out.keys.size() && out.keys[p] == m.first) continue; // the first one counts
            out.keys.insert(out.keys.begin() + (long)p, m.first);
            out.c.insert(out.c.begin() + (long)p, v);
        }
        return true;
    default:
        if (j.k == JNULL) { out.c.clear(); return true; }
        V v = patch && !out.c.empty() ? out.c[0] : v_def(s.e[0]);
        if (!deser(s.e[0], v, j, patch)) return false;
        out.c.assign(1, v);
        return true;
    }
}
enum { OK = 0, CONFLICT = 1, WEIRD = 2 };
static unsigned invalid(const S& s, const V& v) // set of things wrong with it
{
    unsigned r = 0;
    if (s.rule == 1 && v.c[0].i == v.c[1].i) r |= CONFLICT;
    if (s.rule == 2 && v.c[0].i == 77) r |= WEIRD;
    if (s.rule == 3 && (int64_t)(v.c[0].c.size() + v.c[1].c.size()) == v.c[2].i) r |= CONFLICT;
    if (s.rule == 4 && (int64_t)(v.c[1].c.size() + v.c[2].c.size()) == v.c[3].i) r |= WEIRD;
    if (s.rule == 5 && v.c.size() == 2 && v.c[0].c[1].i == v.c[1].c[1].i) r |= CONFLICT;
#if B_ROOT == 6
    if (s.rule == 6 && v.c.empty() && g_need) r |= CONFLICT;
#endif
    if (s.key >= 0)
        for (size_t i = 0; i < v.c.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (v.c[i].c[(size_t)s.key].s == v.c[j].c[(size_t)s.key].s) r |= CONFLICT;
    for (size_t i = 0; i < v.c.size(); ++i) r |= invalid(s.k == SOBJ ? s.f[i].second : s.e[0], v.c[i]);
    return r;
}
typedef std::vector<std::string> segs;
struct node {
    const S* s = nullptr;
    V* v = nullptr;
    bool ro = false;      // may not be replaced
    bool kids_ro = false; // children may not be created, replaced or removed
    int key = -1;         // is an element addressed by this field
    const S* parent = nullptr;
};
static bool index_of(const std::string& t, size_t& out)
{
    if (t.empty() || t.size() > 9 || (t.size() > 1 && t[0] == '0')) return false;
    out = 0;
    for (char c : t) {
        if (c < '0' || c > '9') return false;
        out = out * 10 + (size_t)(c - '0');
    }
    return true;
}
static int child_at(const S& s, const V& v, const std::string& seg)
{
    if (s.k == SMAP) {
        for (size_t i = 0; i < v.keys.size(); ++i)
            if (v.keys[i] == seg) return (int)i;
        return -1;
    }
    if (s.k == SVEC && s.key >= 0) {
        for (size_t i = 0; i < v.c.size(); ++i)
            if (v.c[i].c[(size_t)s.key].s == seg) return (int)i;
        return -1;
    }
    if (s.k == SVEC) {
        size_t i;
        return index_of(seg, i) && i < v.c.size() ? (int)i : -1;
    }
    if (s.k == SOBJ)
        for (size_t i = 0; i < s.f.size(); ++i)
            if (s.f[i].first == seg) return (int)i;
    return -1;
}
static node resolve(const S& root, V& rv, const segs& p, size_t n)
{
    node at;
    at.s = &root;
    at.v = &rv;
    at.kids_ro = root.sro;
    for (size_t i = 0; i < n;) {
        if (at.s->k == SOPT) { // an optional is looked through without using up a segment
            if (at.v->c.empty()) return node();
            bool k = at.kids_ro;
            at.v = &at.v->c[0];
            at.s = &at.s->e[0];
            at.ro = at.kids_ro = k;
            continue;
        }
        int c = child_at(*at.s, *at.v, p[i]);
        if (c < 0) return node();
        node nx;
        nx.parent = at.s;
        nx.s = at.s->k == SOBJ ? &at.s->f[(size_t)c].second : &at.s->e[0];
        nx.v = &at.v->c[(size_t)c];
        bool keyfield = at.key >= 0 && at.s->k == SOBJ && c == at.key;
        nx.ro = at.kids_ro || nx.s->ro || keyfield;
        nx.kids_ro = at.kids_ro || keyfield || nx.s->sro;
        nx.key = at.s->k == SVEC ? at.s->key : -1;
        at = nx;
        ++i;
    }
    return at;
}
static void all_paths(const S& s, const V& v, const std::string& at, std::vector<std::string>& out)
{
    out.push_back(at);
    for (size_t i = 0; i < v.c.size(); ++i) {
        if (s.k == SOPT) {
            std::vector<std::string> in;
            all_paths(s.e[0], v.c[0], at, in);
            out.insert(out.end(), in.begin() + 1, in.end());
            continue;
        }
        std::string n = s.k == SOBJ ? s.f[i].first : s.k == SMAP ? v.keys[i] : s.key >= 0 ? v.c[i].c[(size_t)s.key].s : std::string(1, (char)('0' + i));
        all_paths(s.k == SOBJ ? s.f[i].second : s.e[0], v.c[i], at.empty() ? n : at + "/" + n, out);
    }
}
static segs split(const std::string& t)
{
    segs r;
    std::string c;
    for (char ch : t)
        if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); }
        else c += ch;
    if (!c.empty()) r.push_back(c);
    return r;
}
static bool prefix(const segs& a, const segs& b)
{
    if (a.size() > b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) return false;
    return true;
}
enum { E400 = 1, E404 = 2, E405 = 4, E409 = 8, ETHROW = 16 };
static unsigned code_bit(status_code c)
{
    switch (c) {
    case status_code::bad_request: return E400;
    case status_code::not_found: return E404;
    case status_code::method_not_allowed: return E405;
    case status_code::conflict: return E409;
    default: return 0;
    }
}
enum { PUT, POST, PATCH, DEL };

static void step(kl::resources::resource<Root>& r, const S& sc)
{
    unsigned op = kls::choose("op", 4);
    static const unsigned NP = sizeof paths / sizeof *paths;
    extern unsigned g_path;
    unsigned pi = g_path;
    std::string text = paths[pi];
    segs p = split(text);
    const V before = v_of(r.value);
    V after = before;
    segs where = p;     // what the change is reported for
    unsigned why = 0;   // reasons to refuse
    unsigned success = 0;
    V work = before;
    node n = resolve(sc, work, p, p.size());
#if B_CLASS == 12 // only what touches a protected place
    {
        bool guarded = false;
        for (size_t i = 0; i <= p.size(); ++i) {
            V w0 = before;
            node at = resolve(sc, w0, p, i);
            if (at.s) guarded |= at.ro || at.kids_ro || at.key >= 0 || at.s->key >= 0;
        }
        if (!guarded) return;
    }
#endif
    bool spoil =
#if B_CLASS == 10
        true;
#else
        false;
#endif
    J j;
    if (op == PUT || op == PATCH) {
        success = 200;
        if (n.s) j = body(*n.s, spoil);
        else j = jint(any_int());
        if (op == PATCH && n.s && j.k == JOBJ && n.s->k == SOBJ && kls::choose("partial", 2)) {
            unsigned keep = kls::choose("keep", (unsigned)n.s->f.size() + 1); // one field, or an unknown one
            J q = jobj();
            if (keep < n.s->f.size()) {
                if (auto* m = jfind(j, n.s->f[keep].first)) q.o.push_back({n.s->f[keep].first, *m});
            } else
                q.o.push_back({"unknown", jint(3)});
            j = q;
        }
        if (!n.s) why |= E404;
        else {
            V cand = *n.v;
            if (n.ro) why |= E405;
            if (!deser(*n.s, cand, j, op == PATCH)) why |= E400;
            else if (n.key >= 0 && cand.c[(size_t)n.key].s != n.v->c[(size_t)n.key].s) why |= E405;
            if (!why) {
                *n.v = cand;
                unsigned bad = invalid(sc, work);
                if (bad & CONFLICT) why |= E409;
                if (bad & WEIRD) why |= ETHROW;
                if (!why) after = work;
            }
        }
    } else if (op == POST) {
        success = 201;
        bool vec = n.s && n.s->k == SVEC && !n.s->fixed;
        if (vec) j = body(n.s->e[0], spoil);
        else j = jint(any_int());
        if (!n.s) why |= E404;
        else {
            if (n.ro || n.kids_ro || !vec) why |= E405;
            if (vec) {
                V cand = v_def(n.s->e[0]);
                if (!deser(n.s->e[0], cand, j, false)) why |= E400;
                else if (!why) {
                    n.v->c.push_back(cand);
                    unsigned bad = invalid(sc, work);
                    if (bad & CONFLICT) why |= E409;
                    if (bad & WEIRD) why |= ETHROW;
                    if (!why) after = work;
                }
            }
        }
    } else {
        success = 204;
        V w2 = before;
        node par = p.empty() ? node() : resolve(sc, w2, p, p.size() - 1);
        if (par.s && (par.s->k == SVEC || par.s->k == SMAP)) {
            int c = child_at(*par.s, *par.v, p.back());
            if (c < 0) why |= E404;
            if (par.ro || par.kids_ro || par.s->fixed) why |= E405;
            if (!why) {
                par.v->c.erase(par.v->c.begin() + c);
                if (par.s->k == SMAP) par.v->keys.erase(par.v->keys.begin() + c);
                where.pop_back();
                unsigned bad = invalid(sc, w2);
                if (bad & CONFLICT) why |= E409;
                if (bad & WEIRD) why |= ETHROW;
                if (!why) after = w2;
            }
        } else if (!n.s) why |= E404;
        else {
            if (n.ro || n.s->k != SOPT) why |= E405;
            if (!why) {
                n.v->c.clear();
                unsigned bad = invalid(sc, work);
                if (bad & CONFLICT) why |= E409;
                if (bad & WEIRD) why |= ETHROW;
                if (!why) after = work;
            }
        }
    }
    // ---- the real thing
    rapidjson::Document doc;
    rapidjson::Value val = to_rj(j, doc.GetAllocator());
    kl::path path(text);
    kl::json::deserialize_context ctx;
    auto gen = r.state.modifications.current();
    kl::resources::operation_result res{};
    bool threw = false;
    try {
        switch (op) {
        case PUT: res = kl::resources::put(r, path, val, ctx); break;
        case POST: res = kl::resources::post(r, path, val, ctx); break;
        case PATCH: res = kl::resources::patch(r, path, val, ctx); break;
        default: res = kl::resources::del(r, path, ctx);
        }
    } catch (const weird&) {
        threw = true;
    }
    const V now = v_of(r.value);
    bool ok = !threw && (int)res.status < 300;
    if (ok) {
        CHECKM(why == 0, "an operation that must be refused is refused");
        CHECKM((unsigned)res.status == success, "success status of the operation");
        COVER("ok");
    } else {
        CHECKM(why != 0, "an operation that is allowed is carried out");
        CHECKM(threw ? (why & ETHROW) != 0 : (why & code_bit(res.status)) != 0, "a refused operation reports why");
        COVER("refused");
    }
    if (!threw && res.status == status_code::conflict) CHECKM(!res.body.empty(), "a conflict carries the reason's text");
    CHECKM(same(now, after), ok ? "the operation has exactly its effect" : "a refused operation changes nothing");
    CHECKM(ok == (r.state.modifications.current() != gen), "a generation is used exactly for a successful operation");
    // ---- notification
    std::vector<std::string> qs, qn;
    all_paths(sc, before, "", qs);
    all_paths(sc, now, "", qn);
    for (auto& q : qn) {
        bool have = false;
        for (auto& o : qs) have |= o == q;
        if (!have) qs.push_back(q);
    }
    V b2 = before, n2 = now;
    for (auto& q : qs) {
        segs sq = split(q);
        bool ch = r.state.modifications.changed_since(kl::path(q), gen);
        if (!ok) { CHECKM(!ch, "a refused operation is not reported as a change"); continue; }
        if (prefix(sq, where)) CHECKM(ch, "a change is visible at the changed path and above it");
        else if (!prefix(where, sq)) CHECKM(!ch, "a change is not reported for unrelated paths");
        else if (!ch) {
            node x = resolve(sc, b2, sq, sq.size()), y = resolve(sc, n2, sq, sq.size());
            CHECKM(x.s && y.s && same(*x.v, *y.v), "whatever changed below the path is reported as changed");
        }
    }
    if (kls_is_symbolic()) (void)NP;
}
unsigned g_path;
extern "C" void kls_harness()
{
    const S sc = s_of((Root*)0);
    static const unsigned NP = sizeof paths / sizeof *paths;
    g_path = kls::choose("path", NP);
    kl::resources::resource<Root> r;
#if B_ROOT == 2 || B_ROOT == 4 || B_ROOT == 5 || B_ROOT == 6
    fill(r.value, g_path);
#else
    fill(r.value);
#endif
    step(r, sc);
#ifdef B_TWICE
    g_path = kls::choose("path2", NP);
    step(r, sc);
#endif
}
