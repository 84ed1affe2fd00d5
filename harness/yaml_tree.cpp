// C40: types against the model through YAML: B_MODE 1 serialize+dump+round trip, 2 deserialize, 3 patch.
#include "ymodel.hpp"
#include "kl/yaml.hpp"
#include "jvalues.hpp"
#if B_MODE == 1
template <typename T> static void run()
{
    const S s = s_of((T*)0);
    std::unique_ptr<T> px(new T{});
    T& x = *px;
    fill(x);
    const V v = v_of(x);
#if B_TYPES == 5 // an extra entry may not take a field's name
    if (kls::choose("collide", 2)) {
        T z = x;
        if (collide(z)) {
            bool dump_threw = false, tree_threw = false;
            try {
                YAML::Emitter em;
                kl::yaml::dump_context c(em);
                kl::yaml::dump(z, c);
            } catch (const std::logic_error&) {
                dump_threw = true;
            }
            try {
                kl::yaml::serialize(z);
            } catch (const std::logic_error&) {
                tree_threw = true;
            }
            CHECKM(dump_threw && tree_threw, "an extra entry named like a field is refused");
            COVER("collision");
        }
        return;
    }
#endif
    bool skip_null = kls::choose("skip_null", 2);
    const J want = m_ser(s, v, skip_null);
    kl::yaml::serialize_context ctx(skip_null);
    const YAML::Node tree = kl::yaml::serialize(x, ctx);
    YAML::Emitter em;
    kl::yaml::dump_context dctx(em, skip_null);
    kl::yaml::dump(x, dctx);
    CHECKM(em.kls_complete(), "dumping writes one well-formed document");
    CHECKM(vsame(v_of(x), v), "serializing and dumping leave the value alone");
    px.reset(); // the tree and what was written stand on their own
    const J got = from_yaml(tree);
    CHECKM(jsame(got, want), "the serialized tree is the value's YAML");
    CHECKM(jsame(from_yaml(em.kls_root()), got), "dumping writes the document serializing builds");
    if (round_trips<T>(skip_null)) {
        T y{};
        if (kls::choose("used", 2)) fill_used(y);
        bool threw = false;
        try {
            kl::yaml::deserialize(y, tree);
        } catch (const kl::serialization::deserialize_error&) {
            threw = true;
        }
        CHECKM(!threw, "what was serialized can be read back");
        if (!threw) CHECKM(vsame(v_of(y), v), "reading back yields the value");
        COVER("round");
    }
}
#else
template <typename T> static void run()
{
    const S s = s_of((T*)0);
    { // not the first use of the type
        T t{}, u{};
        const YAML::Node first = kl::yaml::serialize(t);
        try { kl::yaml::deserialize(u, first); } catch (const kl::serialization::deserialize_error&) {}
        try { kl::yaml::patch(u, first); } catch (const kl::serialization::deserialize_error&) {}
    }
    g_trail() = Trail();
    g_wrong() = kls::choose("defects", B_WRONG + 1);
#ifdef B_RICH
    g_rich() = true;
#elif defined(B_TRAIL) && B_TYPES != 4
    g_rich() = false; // only refusals matter here
#else
    g_rich() = !g_wrong();
#endif
    const J j = gen(s, B_MAX);
    T x{};
#if B_MODE == 2
#ifndef B_TRAIL
    if (kls::choose("used", 2)) fill_used(x);
#endif
#else
    fill(x);
#endif
    V v = v_of(x);
#if B_MODE == 2
    bool want = m_deser(s, v, j);
#else
    bool want = m_patch(s, v, j);
#endif
    const YAML::Node tree = to_yaml(j);
    bool ok = true;
    try {
#if B_MODE == 2
        kl::yaml::deserialize(x, tree);
#else
        kl::yaml::patch(x, tree);
#endif
    } catch (const kl::serialization::deserialize_error& e) {
        ok = false;
        CHECKM(e.what()[0], "an error says something");
#ifdef B_TRAIL
        check_trail(e.what());
#endif
    }
    if (want) {
        CHECKM(ok, "a suitable document is accepted");
        if (ok) CHECKM(vsame(v_of(x), v), "the value is what the document says");
        COVER("accepted");
    } else {
        CHECKM(!ok, "an unsuitable document is refused with a deserialize error");
        COVER("refused");
    }
    CHECKM(jsame(from_yaml(tree), j), "the document is left alone");
}
#endif
extern "C" void kls_harness()
{
    choose_type();
}
