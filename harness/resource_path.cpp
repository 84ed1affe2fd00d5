// C13: what a path leads to, for arbitrary segment bytes, against a resolver of its own.
#include "kls.h"
#include "refjson.hpp"
#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"
#include <array>
#include <map>
#include <optional>
namespace attr = kl::resources::attributes;
namespace sa = kl::serialization::attributes;
using kl::resources::status_code;
struct Sub {
    int x = 0;
    std::vector<int> v;
};
KL_REFLECT_STRUCT(Sub, (x, sa::rename("X")), v)
struct Item {
    int w = 0;
    std::string id;
};
KL_REFLECT_STRUCT(Item, w, id)
struct Num {
    int no = 0, w = 0;
};
KL_REFLECT_STRUCT(Num, no, w)
static bool resource_key_matches(const Num&, int key, std::string_view seg) { return seg.size() == 1 && seg[0] - '0' == key; }
struct Root {
    int a = 0;
    Sub ab;
    std::vector<Sub> l;
    std::map<std::string, Sub> m;
    std::map<std::string, int, std::less<>> t;
    std::optional<Sub> o;
    std::vector<Item> k;
    std::vector<Num> n;
    std::array<int, 3> r{};
    std::string s;
    std::vector<std::vector<int>> g;
};
KL_REFLECT_STRUCT(Root, a, (ab, attr::read_only), l, m, (t, sa::rename("tt")), o, (k, attr::child_key<&Item::id>, attr::subtree_read_only), (n, attr::child_key<&Num::no>), r, s, g)

struct hit { // what a resolution found
    const void* at = nullptr;
    int type = 0;
};
template <typename A, typename B> static bool all_eq(const A& a, const B& b)
{
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
        if (!(*i == *j)) return false;
    return true;
}
static bool operator==(const Sub& a, const Sub& b) { return a.x == b.x && all_eq(a.v, b.v); }
static bool operator==(const Item& a, const Item& b) { return a.w == b.w && a.id == b.id; }
static bool operator==(const Num& a, const Num& b) { return a.no == b.no && a.w == b.w; }
static bool same(const Root& a, const Root& b)
{
    return a.a == b.a && a.ab == b.ab && all_eq(a.l, b.l) && all_eq(a.m, b.m) && all_eq(a.t, b.t) && a.o.has_value() == b.o.has_value() && (!a.o || *a.o == *b.o) && all_eq(a.k, b.k) && all_eq(a.n, b.n) && all_eq(a.r, b.r) && a.s == b.s && all_eq(a.g, b.g);
}
static int ty(const int*) { return 1; }
static int ty(const Sub*) { return 2; }
static int ty(const Item*) { return 3; }
static int ty(const Num*) { return 4; }
static int ty(const Root*) { return 5; }
static int ty(const std::string*) { return 6; }
static int ty(const std::vector<int>*) { return 7; }
static int ty(const std::vector<Sub>*) { return 8; }
static int ty(const std::map<std::string, Sub>*) { return 9; }
static int ty(const std::map<std::string, int, std::less<>>*) { return 10; }
static int ty(const std::optional<Sub>*) { return 11; }
static int ty(const std::vector<Item>*) { return 12; }
static int ty(const std::vector<Num>*) { return 13; }
static int ty(const std::array<int, 3>*) { return 14; }
static int ty(const std::vector<std::vector<int>>*) { return 15; }
template <typename T> static hit found(const T& x) { return hit{&x, ty(&x)}; }

typedef std::vector<std::string> segs;
static bool index_of(const std::string& t, size_t size, size_t& out)
{
    // every collection here has fewer than ten elements
    if (t.size() != 1 || t[0] < '0' || t[0] > '9') return false;
    out = (size_t)(t[0] - '0');
    return out < size;
}
static hit res(const int& x, const segs& p, size_t i) { return i == p.size() ? found(x) : hit(); }
static hit res(const std::string& x, const segs& p, size_t i) { return i == p.size() ? found(x) : hit(); }
static hit res(const std::vector<int>&, const segs&, size_t);
static hit res(const Sub&, const segs&, size_t);
template <typename C> static hit res_seq(const C& x, const segs& p, size_t i)
{
    if (i == p.size()) return found(x);
    size_t n;
    return index_of(p[i], x.size(), n) ? res(x[n], p, i + 1) : hit();
}
static hit res(const std::vector<int>& x, const segs& p, size_t i) { return res_seq(x, p, i); }
static hit res(const std::array<int, 3>& x, const segs& p, size_t i) { return res_seq(x, p, i); }
static hit res(const std::vector<std::vector<int>>& x, const segs& p, size_t i) { return res_seq(x, p, i); }
static hit res(const Sub& x, const segs& p, size_t i)
{
    if (i == p.size()) return found(x);
    if (p[i] == "X") return res(x.x, p, i + 1);
    if (p[i] == "v") return res(x.v, p, i + 1);
    return hit();
}
static hit res(const Item& x, const segs& p, size_t i)
{
    if (i == p.size()) return found(x);
    if (p[i] == "w") return res(x.w, p, i + 1);
    if (p[i] == "id") return res(x.id, p, i + 1);
    return hit();
}
static hit res(const Num& x, const segs& p, size_t i)
{
    if (i == p.size()) return found(x);
    if (p[i] == "w") return res(x.w, p, i + 1);
    if (p[i] == "no") return res(x.no, p, i + 1);
    return hit();
}
static hit res(const Root& x, const segs& p)
{
    if (p.empty()) return found(x);
    const std::string& f = p[0];
    if (f == "a") return res(x.a, p, 1);
    if (f == "ab") return res(x.ab, p, 1);
    if (f == "l") return res_seq(x.l, p, 1);
    if (f == "m") {
        if (p.size() == 1) return found(x.m);
        for (auto& e : x.m)
            if (e.first == p[1]) return res(e.second, p, 2);
        return hit();
    }
    if (f == "tt") {
        if (p.size() == 1) return found(x.t);
        for (auto& e : x.t)
            if (e.first == p[1]) return res(e.second, p, 2);
        return hit();
    }
    if (f == "o") {
        if (p.size() == 1) return found(x.o);
        return x.o ? res(*x.o, p, 1) : hit();
    }
    if (f == "k") {
        if (p.size() == 1) return found(x.k);
        for (auto& e : x.k)
            if (e.id == p[1]) return res(e, p, 2);
        return hit();
    }
    if (f == "n") {
        if (p.size() == 1) return found(x.n);
        for (auto& e : x.n)
            if (p[1].size() == 1 && p[1][0] - '0' == e.no) return res(e, p, 2);
        return hit();
    }
    if (f == "r") return res(x.r, p, 1);
    if (f == "s") return res(x.s, p, 1);
    if (f == "g") return res(x.g, p, 1);
    return hit();
}

extern "C" void kls_harness()
{
    kl::resources::resource<Root> r;
    Root& v = r.value;
    v.ab.v = {1, 2};
    v.l.resize(kls::choose("l", 3));
    for (auto& e : v.l) e.v = {3};
    v.m["k"].v = {4};
    v.m["kk"];
    v.m["zy"].v = {8};
    v.t["j"] = 5;
    v.t["jj"] = 6;
    if (kls::choose("o", 2)) { v.o.emplace(); v.o->v = {7}; }
    for (const char* id : {"bc", "b", "0", "ba", "zy"}) { v.k.emplace_back(); v.k.back().id = id; }
    for (int no : {3, 1}) { v.n.emplace_back(); v.n.back().no = no; }
    v.m["a-name-beyond-inline-storage"].v = {9};
    v.t["a-name-beyond-inline-storage"] = 9;
    v.k.emplace_back();
    v.k.back().id = "a-name-beyond-inline-storage";
    v.g = {{1}, {2, 3}};
    // a path of 0..B_SEGS segments of 1..2 arbitrary bytes
    unsigned n = kls::choose("segments", B_SEGS + 1);
    std::string text;
    for (unsigned i = 0; i < n; ++i) {
        unsigned len = 1 + kls::choose("len", 2);
        if (i) text += '/';
        for (unsigned b = 0; b < len; ++b) {
            char c = kls::sym<char>("c");
            kls_assume(c != '/' && c != '%');
            text += c;
        }
    }
#ifdef B_TAIL
    static const char* const tails[] = {"", "/0", "/1", "/X", "/v", "/v/0", "/v/1", "/x", "/w", "/no", "/id", "/18446744073709551616", "/18446744073709551617/v", "/4294967296", "/-0", "/+1", "/ 1", "/0x1", "/1e0", "/a-name-beyond-inline-storage", "/a-name-beyond-inline-storagf"};
    text += tails[kls::choose("tail", sizeof tails / sizeof *tails)];
#endif
    kl::path path(text);
    segs p;
    for (size_t i = 0; i < path.size(); ++i) p.emplace_back(path[i]);
    const hit want = res(v, p);
    hit got;
    unsigned calls = 0;
    std::string shown;
    auto out = kl::resources::get(r, path, [&](const auto& x) {
        got = found(x);
        ++calls;
        shown = kl::json::dump(x);
        return std::string("text");
    });
    if (want.at) {
        CHECKM(out.status == status_code::ok && out.body == "text" && calls == 1, "GET answers for an existing path with what the dumper returned");
        CHECKM(got.at == want.at && got.type == want.type, "GET shows the value the path names");
        COVER("found");
    } else {
        CHECKM(out.status == status_code::not_found && calls == 0 && out.body.empty(), "GET of a path that names nothing is not found");
        COVER("missing");
    }
    // the same place for everybody
    hit w;
    bool threw = false;
    try {
        kl::resources::visit_at_path<int>(v, path.view(), [&](auto node, auto&) { w = found(node.value()); return 0; });
    } catch (const kl::resources::path_segment_not_found_error&) {
        threw = true;
    } catch (const kl::resources::path_not_traversable_error&) {
        threw = true;
    }
    CHECKM(threw == !want.at && w.at == want.at && w.type == want.type, "visiting leads to the same place");
    unsigned verb = kls::choose("verb", 6);
    if (verb >= 3) { // whole values in and out
        threw = false;
        try {
            if (verb == 3) {
                rapidjson::Document d;
                kl::json::serialize_context sc(d);
                const rapidjson::Value t = kl::resources::serialize_at_path(v, path.view(), sc);
                rapidjson::StringBuffer b;
                rapidjson::Writer<rapidjson::StringBuffer> w(b);
                t.Accept(w);
                CHECKM(std::string(b.GetString(), b.GetSize()) == shown, "serializing at a path yields the document of the value there");
            } else if (verb == 4) {
                rapidjson::StringBuffer b;
                rapidjson::Writer<rapidjson::StringBuffer> w(b);
                kl::json::dump_context<rapidjson::Writer<rapidjson::StringBuffer>> dc(w);
                kl::resources::dump_at_path(v, path.view(), dc);
                CHECKM(std::string(b.GetString(), b.GetSize()) == shown, "dumping at a path writes the document of the value there");
            } else {
                const Root before = v;
                int i = kls::sym<int>("new");
                kl::json::deserialize_context dc;
                bool refused = false;
                try {
                    kl::resources::deserialize_at_path(v, path.view(), rapidjson::Value(i), dc);
                } catch (const kl::serialization::deserialize_error&) {
                    refused = true;
                }
                if (want.at) {
                    CHECKM(refused == (want.type != 1), "deserializing at a path takes what the value there takes");
                    if (want.type == 1) {
                        CHECKM(*(const int*)want.at == i, "deserializing at a path stores the value there");
                        segs q = p;
                        *(int*)want.at = *(const int*)res(before, q).at;
                    }
                }
                CHECKM(same(v, before), "deserializing at a path changes nothing else");
            }
        } catch (const kl::resources::path_segment_not_found_error&) {
            threw = true;
        } catch (const kl::resources::path_not_traversable_error&) {
            threw = true;
        }
        CHECKM(threw == !want.at, "values are read and written at a path exactly when GET finds it");
        COVER("at_path");
        return;
    }
    rapidjson::Value null;
    kl::json::deserialize_context ctx;
    auto gen = r.state.modifications.current();
    auto st = verb == 0 ? kl::resources::put(r, path, null, ctx).status : verb == 1 ? kl::resources::patch(r, path, null, ctx).status : kl::resources::post(r, path, null, ctx).status;
    CHECKM((st == status_code::not_found) == !want.at, "an operation finds a path exactly when GET does");
    if (!want.at) CHECKM(r.state.modifications.current() == gen, "nothing is reported for a path that names nothing");
}
