// C38: struct reflection names every declared field once, in order, and gives the very member.
#include "kls.h"
#include "kl/ctti.hpp"
#include "kl/reflect_struct.hpp"
#include <array>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
struct tag_t { int v; };
struct base_attr { int w; };
struct derived_attr : base_attr {
    constexpr derived_attr(int a, int b) : base_attr{a}, x(b) {}
    int x;
};
struct runtime_attr { std::string text; }; // not usable at compile time
namespace ns {
struct A {
    int i;
    bool b;
    short s;
    int hidden;
};
KL_REFLECT_STRUCT(A, i, b, (s, tag_t{7}))
struct B : A {
    long long w;
    std::array<int, 2> arr;
};
KL_REFLECT_STRUCT_DERIVED(B, A, w, arr)
struct M { unsigned m; };
KL_REFLECT_STRUCT(M, (m, tag_t{1}, derived_attr(2, 3), tag_t{4}))
struct D : B, M {
    char d;
};
KL_REFLECT_STRUCT_DERIVED(D, (B, M), (d, runtime_attr{"rt"}, tag_t{9}))
class Priv {
    int p, q;
    KL_REFLECT_STRUCT_FRIEND(Priv, q, p)
public:
    Priv(int a, int b) : p(a), q(b) {}
    int* pp() { return &p; }
    int* pq() { return &q; }
};
class PrivD : public Priv {
    int r;
    KL_REFLECT_STRUCT_DERIVED_FRIEND(PrivD, Priv, r)
public:
    PrivD(int a, int b, int c) : Priv(a, b), r(c) {}
    int* pr() { return &r; }
};
struct Ref {
    int& r;
    A inner;
};
template <typename Factory, typename Visitor> constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, kl::ctti::record_class<Ref>)
{
    vis(KL_ACCESSOR_FIELD(r));
    vis(KL_ACCESSOR_FIELD_NAMED("in", object.inner.i));
}
constexpr std::size_t reflect_num_fields(kl::ctti::record_class<Ref>) noexcept { return 2; }
struct E1 { int only; };
KL_REFLECT_STRUCT(E1, only)
struct Ten { int a, b, c, d, e, f, g, h, i, j, k, l; };
KL_REFLECT_STRUCT(Ten, a, b, c, d, e, f, g, h, i, j, k, l)
} // namespace ns
struct seen { std::string name; const volatile void* at; size_t size; bool is_const; unsigned attrs; };
struct want { const char* name; const volatile void* at; size_t size; unsigned attrs; };
template <typename F> static unsigned count_attrs(const F& f)
{
    unsigned n = 0;
    f.visit_attributes([&](const auto&) { ++n; });
    return n;
}
template <typename T, size_t N> static void agree(T& obj, bool is_const, const want (&w)[N])
{
    unsigned char before[sizeof(T)];
    memcpy(before, (const void*)&obj, sizeof(T));
    std::vector<seen> got;
    kl::ctti::reflect_object(obj, [&](auto field) {
        auto&& v = field.value();
        static_assert(std::is_same_v<typename decltype(field)::value_type, std::remove_cv_t<std::remove_reference_t<decltype(v)>>>);
        got.push_back({field.name(), (const volatile void*)&v, sizeof(v), std::is_const_v<std::remove_reference_t<decltype(v)>>, count_attrs(field)});
    });
    CHECKM(got.size() == N && kl::ctti::num_fields<T>() == N, "every declared field is visited once");
    for (size_t i = 0; i < N && i < got.size(); ++i) {
        CHECKM(got[i].name == w[i].name, "fields come in declaration order, bases first, under their names");
        CHECKM(got[i].at == w[i].at && got[i].size == w[i].size, "a field's value is the very member");
        CHECKM(got[i].is_const == is_const, "fields of a const object are const");
        CHECKM(got[i].attrs == w[i].attrs, "a field has the declared attributes");
    }
    std::vector<seen> types;
    kl::ctti::reflect_type<T>([&](auto field) { types.push_back({field.name(), nullptr, sizeof(typename decltype(field)::value_type), false, count_attrs(field)}); });
    CHECKM(types.size() == N, "type reflection visits the same fields");
    for (size_t i = 0; i < N && i < types.size(); ++i)
        CHECKM(types[i].name == w[i].name && types[i].size == w[i].size && types[i].attrs == w[i].attrs, "type reflection names the same fields");
    if constexpr (std::is_copy_assignable_v<std::remove_const_t<T>>) // objects filled byte by byte
        CHECKM(!memcmp(before, (const void*)&obj, sizeof(T)), "looking changes nothing");
}
// writing through one field changes that field only
template <typename T> static void write_one(T& obj, size_t n)
{
    size_t which = kls::choose("write", (unsigned)n);
    unsigned char before[sizeof(T)], fill = kls::sym<uint8_t>("byte");
    memcpy(before, (const void*)&obj, sizeof(T));
    size_t i = 0, off = 0, len = 0;
    kl::ctti::reflect_object(obj, [&](auto field) {
        if (i++ != which) return;
        auto& v = field.value();
        off = (unsigned char*)&v - (unsigned char*)&obj;
        len = sizeof v;
        memset((void*)&v, fill, sizeof v);
    });
    CHECKM(len > 0 && off + len <= sizeof(T), "the member lies in the object");
    if (!(len > 0 && off + len <= sizeof(T))) return;
    memset(before + off, fill, len);
    CHECKM(!memcmp(before, (const void*)&obj, sizeof(T)), "writing a field changes exactly it");
}
template <typename T> static void sym_obj(T& o) { kls::sym_bytes((void*)&o, sizeof(T), "object"); }
template <typename T, size_t N> static void both(T& o, const want (&w)[N])
{
    agree(o, false, w);
    agree(const_cast<const T&>(o), true, w);
    write_one(o, N);
    COVER("object");
}
static void attributes()
{
    ns::D d{};
    int n = 0, tags = 0, bases = 0, sum = 0;
    kl::ctti::reflect_object(d, [&](auto field) {
        ++n;
        typedef decltype(field) F;
        std::string name = field.name();
        const tag_t* t = field.template get<tag_t>();
        const base_attr* b = field.template get<base_attr>();
        const derived_attr* x = field.template get<derived_attr>();
        const runtime_attr* r = field.template get<runtime_attr>();
        CHECKM(F::template has<tag_t>() == !!t && F::template has<base_attr>() == !!b && F::template has<runtime_attr>() == !!r && F::template has<derived_attr>() == !!x, "has and get agree");
        tags += !!t;
        bases += !!b;
        if (name == "m") {
            CHECKM(t && t->v == 1, "the first matching attribute is returned");
            CHECKM(b && b->w == 2 && x && x->x == 3, "an attribute is found by its base type too");
            std::vector<int> order;
            field.visit_attributes([&](const auto& a) {
                typedef std::decay_t<decltype(a)> at;
                if constexpr (std::is_same_v<at, tag_t>) order.push_back(a.v);
                else if constexpr (std::is_same_v<at, derived_attr>) order.push_back(a.x);
                else order.push_back(-1);
            });
            CHECKM((order == std::vector<int>{1, 3, 4}), "attributes are visited in order");
            std::vector<int> only;
            field.template visit_attributes<tag_t>([&](const auto& a) { if constexpr (std::is_same_v<std::decay_t<decltype(a)>, tag_t>) only.push_back(a.v); else only.push_back(-1); });
            CHECKM((only == std::vector<int>{1, 4}), "only attributes of the asked type are visited");
            int nb = 0;
            field.template visit_attributes<base_attr>([&](const auto&) { ++nb; });
            CHECKM(nb == 1, "attributes are visited by base type");
            nb = 0;
            field.template visit_attributes<runtime_attr>([&](const auto&) { ++nb; });
            CHECKM(nb == 0, "absent attributes are not visited");
        }
        if (name == "d") CHECKM(r && r->text == "rt" && t && t->v == 9 && !b, "attributes belong to their field");
        if (name == "s") CHECKM(t && t->v == 7 && !r && !b, "attributes are inherited with the field");
        if (t) sum += t->v;
    });
    CHECK(n == 7 && tags == 3 && bases == 1 && sum == 17);
    int kept = 0, fields = 0;
    kl::ctti::reflect_type<ns::D, kl::ctti::any_attribute_filter<base_attr>>([&](auto field) {
        ++fields;
        field.visit_attributes([&](const auto&) { ++kept; });
        CHECKM(!field.template has<tag_t>(), "a filtered attribute is gone");
        CHECKM(field.template has<base_attr>() == (std::string(field.name()) == "m"), "a kept attribute stays");
    });
    CHECKM(fields == 7 && kept == 1, "a filter keeps exactly the matching attributes and all fields");
    kept = fields = 0;
    kl::ctti::reflect_type<ns::D, kl::ctti::any_attribute_filter<>>([&](auto field) { ++fields; kept += count_attrs(field); });
    CHECKM(fields == 7 && kept == 0, "an empty filter keeps none");
    kept = 0;
    kl::ctti::reflect_type<ns::D, kl::ctti::any_attribute_filter<tag_t, runtime_attr>>([&](auto field) { kept += count_attrs(field); });
    CHECKM(kept == 5, "a filter of several types keeps them all");
    bool any1 = kl::ctti::has_any_attribute<ns::D, tag_t>(), any2 = kl::ctti::has_any_attribute<ns::A, base_attr>(), any3 = kl::ctti::has_any_attribute<ns::D, base_attr>(), any4 = kl::ctti::has_any_attribute<ns::B, runtime_attr, tag_t>(), any5 = kl::ctti::has_any_attribute<ns::E1, tag_t, base_attr>();
    CHECKM(any1 && !any2 && any3 && any4 && !any5, "has_any_attribute looks at every field, inherited ones too");
    CHECK(kl::ctti::is_reflectable_v<ns::A> && kl::ctti::is_reflectable_v<ns::D> && kl::ctti::is_reflectable_v<ns::Ref> && kl::ctti::is_reflectable_v<ns::PrivD> && !kl::ctti::is_reflectable_v<int> && !kl::ctti::is_reflectable_v<tag_t> && !kl::ctti::is_reflectable_v<std::string>);
}
extern "C" void kls_harness()
{
    switch (kls::choose("case", 8)) {
    case 0: {
        ns::A a;
        sym_obj(a);
        const want w[] = {{"i", &a.i, 4, 0}, {"b", &a.b, 1, 0}, {"s", &a.s, 2, 1}};
        return both(a, w);
    }
    case 1: {
        ns::B a;
        sym_obj(a);
        const want w[] = {{"i", &a.i, 4, 0}, {"b", &a.b, 1, 0}, {"s", &a.s, 2, 1}, {"w", &a.w, 8, 0}, {"arr", &a.arr, 8, 0}};
        return both(a, w);
    }
    case 2: {
        ns::D a;
        sym_obj(a);
        const want w[] = {{"i", &a.i, 4, 0}, {"b", &a.b, 1, 0}, {"s", &a.s, 2, 1}, {"w", &a.w, 8, 0}, {"arr", &a.arr, 8, 0}, {"m", &a.m, 4, 3}, {"d", &a.d, 1, 2}};
        return both(a, w);
    }
    case 3: {
        ns::PrivD a(1, 2, 3);
        sym_obj(a);
        const want w[] = {{"q", a.pq(), 4, 0}, {"p", a.pp(), 4, 0}, {"r", a.pr(), 4, 0}};
        return both(a, w);
    }
    case 4: {
        int x = kls::sym<int>("x");
        ns::Ref a{x, ns::A{}};
        a.inner.i = kls::sym<int>("i");
        const want w[] = {{"r", &x, 4, 0}, {"in", &a.inner.i, 4, 0}};
        agree(a, false, w);
        int y = kls::sym<int>("y");
        size_t which = kls::choose("write", 2), i = 0;
        int ox = x, oi = a.inner.i;
        kl::ctti::reflect_object(a, [&](auto field) { if (i++ == which) field.value() = y; });
        CHECKM(x == (which ? ox : y) && a.inner.i == (which ? y : oi), "accessor fields give the very value");
        return;
    }
    case 5: {
        ns::Ten a;
        sym_obj(a);
        const want w[] = {{"a", &a.a, 4, 0}, {"b", &a.b, 4, 0}, {"c", &a.c, 4, 0}, {"d", &a.d, 4, 0}, {"e", &a.e, 4, 0}, {"f", &a.f, 4, 0}, {"g", &a.g, 4, 0}, {"h", &a.h, 4, 0}, {"i", &a.i, 4, 0}, {"j", &a.j, 4, 0}, {"k", &a.k, 4, 0}, {"l", &a.l, 4, 0}};
        return both(a, w);
    }
    case 6: {
        ns::E1 a;
        sym_obj(a);
        const want w[] = {{"only", &a.only, 4, 0}};
        return both(a, w);
    }
    default: return attributes();
    }
}
