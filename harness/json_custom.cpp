// C39: user-provided conversions are used wherever a value occurs; builders, extractors and the calling forms agree.
#include "jmodel.hpp"
#include "kl/json.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include <array>
#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
namespace sa = kl::serialization::attributes;
// written as an array of one number, read likewise; a patch adds to what is there
struct Ser { int v = 0; };
KL_REFLECT_STRUCT(Ser, v)
struct Both { int v = 0; };
KL_REFLECT_STRUCT(Both, v)
namespace user {
struct Adl { int v = 0; };
KL_REFLECT_STRUCT(Adl, v)
template <typename C> void dump_adl(kl::json::stream_tag, const Adl& a, C& ctx) { ctx.writer().StartArray(); ctx.writer().Bool(true); ctx.writer().Int(a.v); ctx.writer().EndArray(); }
template <typename C> RV serialize_adl(kl::json::tree_tag, const Adl& a, C& ctx) { return kl::json::to_array(ctx).add(true).add(a.v).done(); }
template <typename C> void deserialize_adl(kl::json::tree_tag, Adl& a, const RV& v, C& ctx)
{
    bool t = false;
    int i = 0;
    kl::json::from_array(v, ctx).extract(t).extract(i);
    if (!t) throw kl::serialization::deserialize_error{"not an Adl"};
    a.v = i;
}
template <typename C> void patch_adl(kl::json::tree_tag, Adl& a, const RV& v, C& ctx)
{
    Adl d;
    deserialize_adl(kl::json::tree_tag{}, d, v, ctx);
    a.v ^= d.v;
}
} // namespace user
using user::Adl;
template <typename C> void dump_adl(kl::json::stream_tag, const Both&, C& ctx) { ctx.writer().Null(); }
template <typename C> RV serialize_adl(kl::json::tree_tag, const Both&, C&) { return RV(); }
template <typename C> void deserialize_adl(kl::json::tree_tag, Both& b, const RV&, C&) { b.v = -1; }
template <typename C> void patch_adl(kl::json::tree_tag, Both& b, const RV&, C&) { b.v = -2; }
template <typename T, int Tag> struct own {
    template <typename C> static void dump(const T& s, C& ctx) { ctx.writer().StartArray(); ctx.writer().Int(Tag); ctx.writer().Int(s.v); ctx.writer().EndArray(); }
    template <typename C> static RV serialize(const T& s, C& ctx) { RV a(rapidjson::kArrayType); a.PushBack(Tag, ctx.allocator()).PushBack(s.v, ctx.allocator()); return a; }
    template <typename C> static void deserialize(T& s, const RV& v, C&)
    {
        if (!v.IsArray() || v.Size() != 2 || !v[0].IsInt() || v[0].GetInt() != Tag || !v[1].IsInt()) throw kl::serialization::deserialize_error{"not one"};
        s.v = v[1].GetInt();
    }
    template <typename C> static void patch(T& s, const RV& v, C& ctx)
    {
        T d;
        deserialize(d, v, ctx);
        s.v ^= d.v;
    }
};
namespace kl::serialization {
template <> struct serializer<Ser> : own<Ser, 11> {};
template <> struct serializer<Both> : own<Both, 22> {};
template <> struct optional_traits<Adl> { static bool is_null_value(const Adl& a) { return a.v == 0; } };
template <> struct empty_traits<Ser> { static bool is_empty_value(const Ser& s) { return s.v == 0; } };
} // namespace kl::serialization
struct Holder {
    Ser s;
    Adl a;
    Both b;
    std::optional<Ser> o;
};
KL_REFLECT_STRUCT(Holder, (s, sa::skip_if_empty, sa::allow_missing), (a, sa::allow_missing), b, (o, sa::allow_missing))
struct Keeper {
    int n = 0;
    std::map<std::string, Both> rest;
};
KL_REFLECT_STRUCT(Keeper, n, (rest, sa::extra_fields))
static J pair_of(J x, int v) { J j = jarr(); j.a = {x, jnum(v)}; return j; }
static J want(const Ser& s) { return pair_of(jnum(11), s.v); }
static J want(const Both& s) { return pair_of(jnum(22), s.v); }
static J want(const Adl& s) { return pair_of(jbool(true), s.v); }
template <typename T> static void make(T& t) { t.v = kls::sym<int>("v"); }
// both backends, both null policies
template <typename T> static RV write_to(const T& x, const J& want, rapidjson::Document& doc, bool skip)
{
    kl::json::serialize_context ctx(doc, skip);
    RV tree = kl::json::serialize(x, ctx);
    CHECKM(jsame(from_rj(tree), want), "serializing uses the user's conversion");
    Rec rec;
    kl::json::dump_context<Rec> d(rec, skip);
    kl::json::dump(x, d);
    CHECKM(rec.ok && rec.done && jsame(rec.root, want), "dumping uses the user's conversion");
    Rec rec2;
    kl::json::dump_context<Rec> d2(rec2, skip);
    kl::serialization::dump(x, d2);
    CHECKM(rec2.ok && jsame(rec2.root, want), "the backend-independent form writes the same");
    RV t2 = kl::serialization::serialize(x, ctx);
    CHECKM(jsame(from_rj(t2), want), "the backend-independent form builds the same");
    return tree;
}
template <typename T> static bool read_to(T& out, const RV& v)
{
    try {
        switch (kls::choose("form", 4)) {
        case 0: kl::json::deserialize(out, v); break;
        case 1: { kl::json::deserialize_context c; kl::json::deserialize(out, v, c); break; }
        case 2: out = kl::json::deserialize<T>(v); break;
        default: { kl::json::deserialize_context c; kl::serialization::deserialize(out, v, c); break; }
        }
    } catch (const kl::serialization::deserialize_error&) {
        return false;
    }
    return true;
}
template <typename T> static bool apply_to(T& out, const RV& v)
{
    try {
        switch (kls::choose("form", 3)) {
        case 0: kl::json::patch(out, v); break;
        case 1: { kl::json::deserialize_context c; kl::json::patch(out, v, c); break; }
        default: { kl::json::deserialize_context c; kl::serialization::patch(out, v, c); break; }
        }
    } catch (const kl::serialization::deserialize_error&) {
        return false;
    }
    return true;
}
template <typename T> static void everywhere()
{
    T x;
    make(x);
    rapidjson::Document doc;
    bool skip = kls::choose("skip", 2);
    bool null = kl::serialization::is_null_value(x);
    switch (kls::choose("where", 8)) {
    case 0: {
        RV t = write_to(x, want(x), doc, skip);
        T y;
        make(y);
        CHECKM(read_to(y, t) && y.v == x.v, "a value reads back through the user's conversion");
        break;
    }
    case 1: {
        std::vector<T> v{x, x};
        J w = jarr();
        w.a = {want(x), want(x)};
        RV t = write_to(v, w, doc, skip);
        std::vector<T> y(1);
        CHECKM(read_to(y, t) && y.size() == 2 && y[0].v == x.v && y[1].v == x.v, "elements read back through the user's conversion");
        break;
    }
    case 2: {
        std::map<std::string, T> m{{"k", x}};
        J w = jobj();
        if (!(skip && null)) w.o = {{"k", want(x)}};
        RV t = write_to(m, w, doc, skip);
        std::map<std::string, T> y;
        CHECKM(read_to(y, t), "mapped values read back through the user's conversion");
        if (!(skip && null)) CHECKM(y.size() == 1 && y["k"].v == x.v, "mapped values read back through the user's conversion");
        break;
    }
    case 3: {
        std::optional<T> o;
        bool on = kls::choose("engaged", 2);
        if (on) o = x;
        RV t = write_to(o, on ? want(x) : J(), doc, skip);
        std::optional<T> y;
        CHECKM(read_to(y, t) && y.has_value() == on && (!on || y->v == x.v), "an optional reads back through the user's conversion");
        break;
    }
    case 4: {
        std::tuple<int, T> v{5, x};
        J w = jarr();
        w.a = {jnum(5), want(x)};
        RV t = write_to(v, w, doc, skip);
        std::tuple<int, T> y;
        CHECKM(read_to(y, t) && std::get<1>(y).v == x.v && std::get<0>(y) == 5, "tuple members read back through the user's conversion");
        break;
    }
    case 5: {
        std::array<T, 1> v{x};
        J w = jarr();
        w.a = {want(x)};
        RV t = write_to(v, w, doc, skip);
        std::array<T, 1> y;
        CHECKM(read_to(y, t) && y[0].v == x.v, "array elements read back through the user's conversion");
        break;
    }
    case 6: { // patching goes to the user's patch, in place
        T y;
        make(y);
        int old = y.v;
        RV d = to_rj(want(x), doc.GetAllocator());
        CHECKM(apply_to(y, d) && y.v == (old ^ x.v), "patching uses the user's conversion");
        std::optional<T> o;
        bool on = kls::choose("engaged", 2);
        if (on) { o.emplace(); o->v = old; }
        CHECKM(apply_to(o, d) && o && o->v == ((on ? old : 0) ^ x.v), "patching an optional uses the user's conversion");
        std::vector<T> v(2);
        RV arr = to_rj([&] { J w = jarr(); w.a = {want(x)}; return w; }(), doc.GetAllocator());
        CHECKM(apply_to(v, arr) && v.size() == 1 && v[0].v == x.v, "a list is replaced");
        break;
    }
    default: { // refusal by the user's conversion is the library's refusal
        T y;
        make(y);
        RV bad = to_rj(jstr("x"), doc.GetAllocator());
        CHECKM(!read_to(y, bad), "the user's refusal arrives");
        std::vector<T> v;
        RV arr = to_rj([&] { J w = jarr(); w.a = {want(x), jstr("x")}; return w; }(), doc.GetAllocator());
        CHECKM(!read_to(v, arr), "the user's refusal arrives from inside a list");
        CHECKM(!apply_to(y, bad), "the user's refusal of a patch arrives");
    }
    }
    COVER("custom");
}
static void in_struct()
{
    rapidjson::Document doc;
    bool skip = kls::choose("skip", 2);
    Holder h;
    make(h.s);
    make(h.a);
    make(h.b);
    bool on = kls::choose("engaged", 2);
    if (on) { h.o.emplace(); make(*h.o); }
    J w = jobj();
    if (h.s.v != 0) w.o.push_back({"s", want(h.s)}); // its own notion of empty
    if (!skip || h.a.v != 0) w.o.push_back({"a", want(h.a)}); // its own notion of null
    w.o.push_back({"b", want(h.b)});
    if (on || !skip) w.o.push_back({"o", on ? want(*h.o) : J()});
    RV t = write_to(h, w, doc, skip);
    Holder y;
    CHECKM(read_to(y, t) && y.s.v == h.s.v && y.a.v == h.a.v && y.b.v == h.b.v && y.o.has_value() == on && (!on || y.o->v == h.o->v), "a struct's fields read back through the user's conversions");
    Holder z = h;
    CHECKM(apply_to(z, t) && z.s.v == 0 && z.a.v == 0 && z.b.v == 0 && z.o.has_value() == on && (!on || z.o->v == 0), "patching a struct patches its fields through the user's conversions");
    Keeper k, k2;
    k.n = kls::sym<int>("n");
    make(k.rest["q"]);
    J wk = jobj();
    wk.o = {{"n", jnum(k.n)}, {"q", want(k.rest["q"])}};
    RV tk = write_to(k, wk, doc, skip);
    CHECKM(read_to(k2, tk) && k2.n == k.n && k2.rest.size() == 1 && k2.rest["q"].v == k.rest["q"].v, "extra fields read back through the user's conversion");
    int n = k.n;
    CHECKM(apply_to(k, tk) && k.n == n && k.rest["q"].v == 0, "extra fields are patched through the user's conversion");
    COVER("struct");
}
static void builders()
{
    kl::json::owning_serialize_context ctx;
    int a = kls::sym<int>("a");
    std::string s = "dyn";
    char one = (char)kls::sym<uint8_t>("char");
    s[1] = one;
    J w = jobj(), arr = jarr();
    arr.a = {jnum(a), jstr("lit"), J(), jbool(true), pair_of(jnum(11), a)};
    Ser ser;
    ser.v = a;
    RV inner = kl::json::to_array(ctx).add(a).add("lit").add(nullptr).add(true).add(ser).done();
    CHECKM(jsame(from_rj(inner), arr), "an array builder adds in order");
    RV obj = kl::json::to_object(ctx).add("x", a).add("list", std::move(inner)).add_dynamic_name(s, std::optional<int>()).add("n", std::optional<int>(a)).done();
    std::string saved = s;
    s = "gone"; // a dynamic name was copied
    w.o = {{"x", jnum(a)}, {"list", arr}, {saved, J()}, {"n", jnum(a)}};
    CHECKM(jsame(from_rj(obj), w), "an object builder adds in order under the given names");
    RV conv = kl::json::to_array(ctx).add(a);
    CHECKM(conv.IsArray() && conv.Size() == 1 && conv[0].GetInt() == a, "a builder converts to its value");
    RV oconv = kl::json::to_object(ctx).add_dynamic_name(saved, RV(a));
    CHECKM(oconv.IsObject() && oconv.MemberCount() == 1 && oconv.MemberBegin()->value.GetInt() == a && std::string(oconv.MemberBegin()->name.GetString(), oconv.MemberBegin()->name.GetStringLength()) == saved, "a builder converts to its value");
    kl::json::deserialize_context dc;
    int x = 0, k = 1;
    std::optional<int> none = 3, n;
    std::vector<kl::json::view> list;
    kl::json::from_object(obj, dc).extract("x", x).extract("absent", none).extract("n", n).extract("list", list);
    CHECKM(x == a && !none && n == a && list.size() == 5 && list[0]->GetInt() == a, "an extractor reads the named members; an absent one is null");
    Ser back;
    bool t = false;
    std::string lit;
    const RV& l = obj["list"];
    kl::json::from_array(l, dc).extract(k).extract(lit).extract(back, 4).extract(none);
    CHECKM(k == a && lit == "lit" && back.v == a && !none, "an array extractor reads in turn, or from the given place on; past the end is null");
    kl::json::from_array(l, dc).extract(t, 3).extract(back);
    CHECKM(t && back.v == a, "an array extractor goes on after the given place");
    int keep = 77;
    bool threw = false;
    auto ex = kl::json::from_array(l, dc);
    try {
        ex.extract(keep, 1);
    } catch (const kl::serialization::deserialize_error& e) {
        threw = true;
        CHECKM(std::string(e.what()).find("1") != std::string::npos, "the error names the element");
    }
    CHECKM(threw && keep == 77, "an unsuitable element is refused");
    std::string again;
    ex.extract(again);
    CHECKM(again == "lit", "a refusal does not move the extractor");
    threw = false;
    try {
        kl::json::from_object(obj, dc).extract("absent", keep);
    } catch (const kl::serialization::deserialize_error& e) {
        threw = true;
        CHECKM(std::string(e.what()).find("absent") != std::string::npos, "the error names the member");
    }
    CHECKM(threw && keep == 77, "an absent mandatory member is refused");
    unsigned bad = 0;
    try { kl::json::from_object(l, dc); } catch (const kl::serialization::deserialize_error&) { ++bad; }
    try { kl::json::from_array(obj, dc); } catch (const kl::serialization::deserialize_error&) { ++bad; }
    CHECKM(bad == 2, "extractors refuse the wrong kind");
    // at()
    unsigned i = kls::choose("index", 7);
    const RV& e = kl::json::at(l.GetArray(), i);
    CHECKM(i < 5 ? &e == &l[i] : e.IsNull(), "at gives the element or null");
    CHECKM(kl::json::at(std::as_const(obj).GetObject(), "nope").IsNull() && &kl::json::at(std::as_const(obj).GetObject(), "x") == &obj["x"], "at gives the member or null");
    COVER("built");
}
// other values that can be written
static void others()
{
    rapidjson::Document doc;
    bool skip = kls::choose("skip", 2);
    int a = kls::sym<int>("a");
    int b = kls::sym<int>("b");
    char c0 = (char)kls::sym<uint8_t>("char");
    switch (kls::choose("other", 10)) {
    case 0: { const char* t = "text"; write_to(t, jstr("text"), doc, skip); break; }
    case 1: { std::string s = "a?c"; s[1] = c0; std::string_view v(s.data(), 2); write_to(v, jstr(s.substr(0, 2)), doc, skip); break; }
    case 2: write_to(nullptr, J(), doc, skip); break;
    case 3: { std::set<int> s{a, b}; J w = jarr(); for (int i : s) w.a.push_back(jnum(i)); write_to(s, w, doc, skip); break; }
    case 4: { std::unordered_map<std::string, int> m{{"k", a}}; J w = jobj(); w.o = {{"k", jnum(a)}}; RV t = write_to(m, w, doc, skip); decltype(m) y{{"old", 1}}; CHECKM(read_to(y, t) && y == m, "an unordered map reads back"); break; }
    case 5: { J inner = jarr(); inner.a = {jnum(a), jstr("q"), J()}; RV tree = to_rj(inner, doc.GetAllocator()); kl::json::view v(tree); RV copy = write_to(v, inner, doc, skip); tree.SetNull(); CHECKM(jsame(from_rj(copy), inner), "a view is copied when serialized"); break; }
    case 6: { J inner = jobj(); inner.o = {{"a", jnum(a)}}; RV tree = to_rj(inner, doc.GetAllocator()); kl::json::view v; CHECKM(!v, "a view starts empty"); if (!read_to(v, tree)) CHECKM(false, "a view takes any document"); else CHECKM(v && &v.value() == &tree && &*v == &tree && v->IsObject(), "a view refers to the document"); break; }
    case 7: { std::string s = "a?"; s[1] = c0; RV tree = to_rj(jstr(s), doc.GetAllocator()); std::string_view v; CHECKM(read_to(v, tree) && v == s, "a text view refers to the document's text"); RV n = RV(a); CHECKM(!read_to(v, n), "a text view refuses a number"); break; }
    case 8: { std::vector<std::string_view> v{"x", ""}; J w = jarr(); w.a = {jstr("x"), jstr("")}; write_to(v, w, doc, skip); break; }
    default: { std::map<std::string, std::map<std::string, int>> m; m["o"]["i"] = a; J i = jobj(), w = jobj(); i.o = {{"i", jnum(a)}}; w.o = {{"o", i}}; RV t = write_to(m, w, doc, skip); decltype(m) y; CHECKM(read_to(y, t) && y == m, "nested maps read back"); }
    }
    COVER("other");
}
extern "C" void kls_harness()
{
    switch (kls::choose("part", 6)) {
    case 0: return everywhere<Ser>();
    case 1: return everywhere<Adl>();
    case 2: return everywhere<Both>();
    case 3: return in_struct();
    case 4: return builders();
    default: return others();
    }
}
