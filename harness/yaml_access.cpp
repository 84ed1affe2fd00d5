// C43: the ways around the type mapping: views, member access, extractors, builders, parsing,
// calling forms, keys that are not texts, user conversions.
#include "ymodel.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include "kl/yaml.hpp"
#include <map>
#include <optional>
namespace sa = kl::serialization::attributes;
namespace y = kl::yaml;
typedef kl::serialization::deserialize_error bad;
static J any_j(const char* n, unsigned depth = 1)
{
    switch (kls::choose(n, depth ? 5 : 3)) {
    case 0: return J();
    case 1: return jnum(kls::sym<int>(n));
    case 2: return jstr(any_text(n, 1));
    case 3: { J j = jarr(); j.a = {any_j(n, 0), jnum(kls::sym<int>(n))}; return j; }
    default: { J j = jobj(); j.o.push_back({"k", any_j(n, 0)}); return j; }
    }
}
#if B_PART == 1 // views
struct W {
    y::view v;
    int n = 0;
    std::vector<y::view> l;
    std::map<std::string, y::view> m;
};
KL_REFLECT_STRUCT(W, (v, sa::allow_missing), n, (l, sa::allow_missing), (m, sa::extra_fields))
static J doc_of(int n, const J& v, const J& e, const J& x)
{
    J j = jobj(), l = jarr();
    l.a = {e};
    j.o = {{"v", v}, {"n", jnum(n)}, {"l", l}, {"x", x}};
    return j;
}
static void read(W& w, const YAML::Node& d, unsigned how)
{
    if (how == 0) y::deserialize(w, d);
    else if (how == 1) w = y::deserialize<W>(d);
    else y::patch(w, d);
}
extern "C" void kls_harness()
{
    int na = kls::sym<int>("na"), nb = kls::sym<int>("nb");
    const J ja = doc_of(na, any_j("a"), jnum(1), jstr("xa")), jb = doc_of(nb, any_j("b"), jnum(2), jstr("xb"));
    const YAML::Node a = to_yaml(ja), b = to_yaml(jb);
    W w;
    y::deserialize(w, a);
    CHECKM(jsame(from_yaml(w.v), ja.o[0].second) && w.n == na && w.l.size() == 1 && w.m.size() == 1, "a view shows the part of the document it was read from");
    // kept elsewhere, then read again from another document
    W kept = w;
    y::view one = w.v, *p = &one;
    unsigned how = kls::choose("how", 5);
    if (how < 3) {
        read(w, b, how);
        CHECKM(jsame(from_yaml(w.v), jb.o[0].second) && w.n == nb, "a view shows the part of the document it was last read from");
        CHECKM(w.l.size() == 1 && jsame(from_yaml(w.l[0]), jnum(2)), "so do views in lists");
        CHECKM(w.m.count("x") == 1 && jsame(from_yaml(w.m["x"]), jstr("xb")), "so do views among extra fields");
    } else if (how == 3) {
        one = y::view(static_cast<const YAML::Node&>(b)["v"]);
        CHECKM(jsame(from_yaml(*p), jb.o[0].second), "an assigned view shows what it was given");
    } else {
        y::deserialize(one, static_cast<const YAML::Node&>(b)["v"]);
        CHECKM(jsame(from_yaml(one.value()), jb.o[0].second), "a view read again shows what it was given");
    }
    CHECKM(jsame(from_yaml(kept.v), ja.o[0].second), "a copy of a view keeps showing the same part");
    CHECKM(jsame(from_yaml(a), ja), "reading leaves earlier documents alone");
    CHECKM(jsame(from_yaml(b), jb), "reading leaves the document alone");
    // and out again
    const J bv = from_yaml(w.v);
    const YAML::Node tree = y::serialize(w);
    CHECKM(jsame(from_yaml(static_cast<const YAML::Node&>(tree)["v"]), bv), "a view is serialized as what it shows");
    YAML::Emitter em;
    y::dump_context dc(em);
    y::dump(w, dc);
    CHECKM(em.kls_complete() && jsame(from_yaml(em.kls_root()), from_yaml(tree)), "dumping writes the document serializing builds");
    CHECKM(jsame(from_yaml(a), ja) && jsame(from_yaml(b), jb), "writing leaves the documents alone");
    CHECKM((bool)y::view() && y::view().value().IsNull() && y::view()->IsNull(), "a new view shows null");
    COVER("end");
}
#elif B_PART == 2 // extractors (the C25 scheme)
// 0 number, 1 null, 2 list of numbers, 3 list with a text at 1, 4 text
static J make(unsigned kind, int n)
{
    if (kind == 0) return jnum(n);
    if (kind == 1) return J();
    if (kind == 4) return jstr("t");
    J v = jarr();
    v.a.push_back(jnum(n));
    v.a.push_back(kind == 3 ? jstr("t") : jnum(2));
    return v;
}
static bool suits(unsigned kind, unsigned type, int& inner)
{
    inner = -1;
    if (type == 0) return kind == 0;
    if (type == 1) return kind <= 1;
    if (kind == 3) inner = 1;
    return kind == 2;
}
static void check_lines(const char* what, const std::vector<std::string>& steps)
{
    std::vector<std::string> line(1);
    for (; *what; ++what)
        if (*what == '\n') line.emplace_back();
        else line.back() += *what;
    CHECKM(!line[0].empty(), "an error starts with its reason");
    CHECKM(line.size() == steps.size() + 1, "an error names every step to the failing place once");
    if (line.size() != steps.size() + 1) return;
    for (size_t i = 0; i < steps.size(); ++i) {
        const std::string &l = line[i + 1], &w = steps[i];
        CHECKM(l.size() > w.size() && l.compare(l.size() - w.size(), w.size(), w) == 0 && l[l.size() - w.size() - 1] == ' ', "an error names the failing place from the inside outwards");
    }
}
static std::string element(unsigned i) { return std::string("element ") + (char)('0' + i); }
extern "C" void kls_harness()
{
    bool object = kls::choose("object", 2);
    static const char* const names[] = {"a", "ab", "", "b"};
    unsigned n = kls::choose("size", 4), kind[4] = {1, 1, 1, 1};
    int num[4];
    J j = object ? jobj() : jarr();
    for (unsigned i = 0; i < n; ++i) {
        kind[i] = kls::choose("kind", 5);
        num[i] = kls::sym<int>("num");
        if (object) j.o.push_back({names[i], make(kind[i], num[i])});
        else j.a.push_back(make(kind[i], num[i]));
    }
    const YAML::Node v = to_yaml(j);
    y::deserialize_context dc;
    unsigned at = 0;
    for (unsigned i = 0; i < 4; ++i) {
        J want = i < n ? make(kind[i], num[i]) : J();
        YAML::Node got;
        if (object) got.reset(y::at(v, names[i]));
        else got.reset(y::at(v, i));
        CHECKM(got.IsDefined() && jsame(from_yaml(got), want), "access to a missing member or element yields null");
    }
    auto go = [&](auto& ex) {
        for (unsigned k = 0; k < 2; ++k) {
            unsigned type = kls::choose("type", 3);
            bool direct = object || kls::choose("direct", 2);
            if (direct) at = kls::choose("at", 4);
            int i = 77, inner;
            std::optional<int> o = 77;
            std::vector<int> l{77};
            bool want = suits(kind[at], type, inner), ok = true;
            try {
                if constexpr (std::is_same_v<std::decay_t<decltype(ex)>, std::decay_t<decltype(y::from_map(v, dc))>>) {
                    if (type == 0) ex.extract(names[at], i);
                    else if (type == 1) ex.extract(std::string(names[at]), o);
                    else ex.extract(names[at], l);
                } else {
                    if (type == 0) direct ? ex.extract(i, at) : ex.extract(i);
                    else if (type == 1) direct ? ex.extract(o, at) : ex.extract(o);
                    else direct ? ex.extract(l, at) : ex.extract(l);
                }
            } catch (const bad& e) {
                ok = false;
                std::vector<std::string> steps;
                if (inner >= 0) steps.push_back(element((unsigned)inner));
                steps.push_back(object ? "field " + std::string(names[at]) : element(at));
                check_lines(e.what(), steps);
                COVER("refused");
            }
            CHECKM(ok == want, "an element is extracted exactly when it suits its target");
            if (!ok || !want) return;
            CHECKM(type != 0 || i == num[at], "the number extracted is the one in the document");
            CHECKM(type != 1 || (kind[at] == 1 ? !o : o && *o == num[at]), "the optional extracted is the one in the document");
            CHECKM(type != 2 || (l.size() == 2 && l[0] == num[at] && l[1] == 2), "the list extracted is the one in the document");
            ++at;
            if (at == 4) return;
        }
        COVER("accepted");
    };
    bool threw = false;
    try {
        if (object) y::from_sequence(v, dc);
        else y::from_map(v, dc);
    } catch (const bad&) {
        threw = true;
    }
    CHECKM(threw, "extracting elements of a map, or members of a sequence, is refused");
    if (object) {
        auto ex = y::from_map(v, dc);
        go(ex);
    } else {
        auto ex = y::from_sequence(v, dc);
        go(ex);
    }
    CHECKM(jsame(from_yaml(v), j), "extracting leaves the document alone");
}
#else // builders, parsing, forms, keys, user conversions
struct Opt { std::optional<int> o; int n = 0; };
KL_REFLECT_STRUCT(Opt, o, n)
struct Ser { int v = 0; };
KL_REFLECT_STRUCT(Ser, v)
namespace user {
struct Adl { int v = 0; };
KL_REFLECT_STRUCT(Adl, v)
template <typename C> void dump_adl(y::stream_tag, const Adl& a, C& ctx) { ctx.emitter() << YAML::BeginSeq << true << a.v << YAML::EndSeq; }
template <typename C> YAML::Node serialize_adl(y::tree_tag, const Adl& a, C& ctx) { return y::to_sequence(ctx).add(true).add(a.v).done(); }
template <typename C> void deserialize_adl(y::tree_tag, Adl& a, const YAML::Node& v, C& ctx)
{
    bool t = false;
    int i = 0;
    y::from_sequence(v, ctx).extract(t).extract(i);
    if (!t) throw bad{"not an Adl"};
    a.v = i;
}
template <typename C> void patch_adl(y::tree_tag, Adl& a, const YAML::Node& v, C& ctx)
{
    Adl d;
    deserialize_adl(y::tree_tag{}, d, v, ctx);
    a.v ^= d.v;
}
} // namespace user
using user::Adl;
namespace kl::serialization {
template <> struct serializer<Ser> {
    template <typename C> static void dump(const Ser& s, C& ctx) { ctx.emitter() << YAML::BeginSeq << 11 << s.v << YAML::EndSeq; }
    template <typename C> static YAML::Node serialize(const Ser& s, C& ctx) { return y::to_sequence(ctx).add(11).add(s.v); }
    template <typename C> static void deserialize(Ser& s, const YAML::Node& v, C& ctx)
    {
        int tag = 0, i = 0;
        y::from_sequence(v, ctx).extract(tag).extract(i);
        if (tag != 11) throw bad{"not one"};
        s.v = i;
    }
    template <typename C> static void patch(Ser& s, const YAML::Node& v, C& ctx)
    {
        Ser d;
        deserialize(d, v, ctx);
        s.v ^= d.v;
    }
};
} // namespace kl::serialization
struct Holder {
    Ser s;
    Adl a;
    std::optional<Ser> o;
    std::vector<Adl> l;
};
KL_REFLECT_STRUCT(Holder, s, a, (o, sa::allow_missing), l)
static J pair_of(J x, int v) { J j = jarr(); j.a = {x, jnum(v)}; return j; }
template <typename T> static J tree_of(const T& x, bool skip)
{
    y::serialize_context c(skip);
    switch (kls::choose("form", skip ? 3 : 2)) {
    case 0: return from_yaml(y::serialize(x, c));
    case 1: return from_yaml(kl::serialization::serialize(x, c));
    default: return from_yaml(y::serialize(x));
    }
}
template <typename T> static J dump_of(const T& x, bool skip)
{
    YAML::Emitter em;
    y::dump_context c(em, skip);
    if (kls::choose("form", 2)) y::dump(x, c);
    else kl::serialization::dump(x, c);
    CHECKM(em.kls_complete(), "dumping writes one well-formed document");
    return from_yaml(em.kls_root());
}
template <typename T> static bool read(T& out, const YAML::Node& v)
{
    try {
        switch (kls::choose("form", 5)) {
        case 0: y::deserialize(out, v); break;
        case 1: { y::deserialize_context c; y::deserialize(out, v, c); break; }
        case 2: out = y::deserialize<T>(v); break;
        case 3: { y::deserialize_context c; out = y::deserialize<T>(v, c); break; }
        default: { y::deserialize_context c; kl::serialization::deserialize(out, v, c); break; }
        }
    } catch (const bad&) {
        return false;
    }
    return true;
}
template <typename T> static bool apply(T& out, const YAML::Node& v)
{
    try {
        switch (kls::choose("form", 3)) {
        case 0: y::patch(out, v); break;
        case 1: { y::deserialize_context c; y::patch(out, v, c); break; }
        default: { y::deserialize_context c; kl::serialization::patch(out, v, c); break; }
        }
    } catch (const bad&) {
        return false;
    }
    return true;
}
static std::string g_text;
static YAML::Node load(const std::string& t)
{
    g_text = t;
    if (t == "[") throw YAML::ParserException(YAML::Mark(), "no closing bracket");
    return YAML::Node(std::string("loaded"));
}
static void forms()
{
    Opt x;
    if (kls::choose("engaged", 2)) x.o = kls::sym<int>("o");
    x.n = kls::sym<int>("n");
    bool skip = kls::choose("skip", 2);
    J w = jobj();
    if (x.o) w.o.push_back({"o", jnum(*x.o)});
    else if (!skip) w.o.push_back({"o", J()});
    w.o.push_back({"n", jnum(x.n)});
    CHECKM(jsame(tree_of(x, skip), w), "every form of serializing builds the value's YAML");
    CHECKM(jsame(dump_of(x, skip), w), "every form of dumping writes the value's YAML");
    Opt z{5, 6}, p{7, 8};
    const YAML::Node t = to_yaml(w);
    CHECKM(read(z, t) && z.o == x.o && z.n == x.n, "every form of reading yields the value");
    CHECKM(apply(p, t) && p.n == x.n && p.o == (x.o ? x.o : skip ? std::optional<int>(7) : std::nullopt), "every form of patching applies the document");
    COVER("forms");
}
static void texts()
{
    Opt x{1, -2};
    std::string s = y::dump(x);
    YAML::Emitter em;
    y::dump_context c(em);
    y::dump(x, c);
    CHECKM(s == em.c_str() && !s.empty(), "dumping to a text gives what was written");
    YAML::model::load_with() = load;
    const YAML::Node n = y::parse("a: b");
    CHECKM(g_text == "a: b" && n.IsScalar() && n.Scalar() == "loaded", "parsing yields the document in the text");
    const YAML::Node l = "x: y"_yaml;
    CHECKM(g_text == "x: y" && l.Scalar() == "loaded", "so does a literal");
    bool threw = false;
    try {
        y::parse("[");
    } catch (const kl::serialization::parse_error& e) {
        threw = !strcmp(e.what(), "no closing bracket");
    }
    CHECKM(threw, "a text that is no document is refused with a parse error that says why");
    threw = false;
    try {
        "["_yaml;
    } catch (const kl::serialization::parse_error& e) {
        threw = !strcmp(e.what(), "no closing bracket");
    }
    CHECKM(threw, "a literal that is no document is refused with a parse error that says why");
    COVER("texts");
}
static void builders()
{
    int a = kls::sym<int>("a"), b = kls::sym<int>("b");
    const J extra = any_j("e");
    y::serialize_context c(kls::choose("skip", 2));
    unsigned form = kls::choose("form", 2);
    YAML::Node m = y::to_map(c).add("a", a).add(std::string("b"), std::optional<int>(b)).add("c", to_yaml(extra)).add("d", std::vector<int>{a, b});
    J w = jobj(), l = jarr();
    l.a = {jnum(a), jnum(b)};
    w.o = {{"a", jnum(a)}, {"b", jnum(b)}, {"c", extra}, {"d", l}};
    CHECKM(m.IsMap() && jsame(from_yaml(m), w), "a map is built from what was added, in order");
    YAML::Node q;
    if (form) q.reset(y::to_sequence(c).add(a).add(to_yaml(extra)).add("t").done());
    else q.reset(y::to_sequence(c).add(a).add(to_yaml(extra)).add("t"));
    J v = jarr();
    v.a = {jnum(a), extra, jstr("t")};
    CHECKM(q.IsSequence() && jsame(from_yaml(q), v), "a sequence is built from what was added, in order");
    YAML::Node again = y::to_map(c).add("a", a).add("b", b).add("a", b);
    J aw = jobj();
    aw.o = {{"a", jnum(b)}, {"b", jnum(b)}};
    CHECKM(jsame(from_yaml(again), aw), "a member added again has the later value");
    // access by position and by name
    YAML::Node pos(YAML::NodeType::Sequence);
    J pj = jarr();
    for (unsigned n = kls::choose("n", 4); n > 0; --n) { pos.push_back(n == 2 ? b : a); pj.a.push_back(jnum(n == 2 ? b : a)); }
    const YAML::Node& cpos = pos;
    for (std::size_t k = 0; k < 5; ++k) CHECKM(jsame(from_yaml(y::at(cpos, k)), k < pj.a.size() ? pj.a[k] : J()), "at() yields the element at the position, or null");
    const YAML::Node cm = to_yaml(w);
    CHECKM(jsame(from_yaml(y::at(cm, "c")), extra) && jsame(from_yaml(y::at(cm, "d")), l) && y::at(cm, "nope").IsNull(), "at() yields the member, or null");
    std::optional<int> oi = 3;
    CHECKM(read(oi, cm["nope"]) && !oi, "a member that is not there reads as nothing");
    YAML::Node e1 = y::to_map(c).done(), e2 = y::to_sequence(c).done();
    CHECKM(e1.IsMap() && !e1.size() && e2.IsSequence() && !e2.size(), "nothing added gives an empty map or sequence");
    COVER("builders");
}
static void keys()
{
    int k1 = kls::sym<int>("k1"), k2 = kls::sym<int>("k2"), v1 = kls::sym<int>("v1"), v2 = kls::sym<int>("v2");
    kls_assume(k1 < k2);
    std::map<int, int> x{{k1, v1}, {k2, v2}}, z{{1, 1}};
    YAML::Node t(YAML::NodeType::Map);
    t.force_insert(k2, v2);
    t.force_insert(k1, v1);
    CHECKM(read(z, t) && z == x, "a map with number keys is read");
    // a key that does not suit
    YAML::Node m(YAML::NodeType::Map);
    m.force_insert(k1, v1);
    unsigned kind = kls::choose("key", 3);
    if (kind == 0) m.force_insert("text", v2);
    else if (kind == 1) m.force_insert(YAML::Node(), v2);
    else m.force_insert(YAML::Node(YAML::NodeType::Sequence), v2);
    std::map<int, int> o;
    CHECKM(!read(o, m), "a map with an unsuitable key is refused with a deserialize error");
    std::map<std::string, int> s;
    YAML::Node m2(YAML::NodeType::Map);
    m2.force_insert("a", 1);
    if (kind == 0) m2.force_insert(true, v2);
    else if (kind == 1) m2.force_insert(YAML::Node(), v2);
    else m2.force_insert(YAML::Node(YAML::NodeType::Map), v2);
    bool ok = read(s, m2);
    CHECKM(ok == (kind == 0), "only scalars are text keys");
    CHECKM(!ok || (s.size() == 2 && s["a"] == 1 && s["true"] == v2), "a scalar key is read as it is written");
    COVER("keys");
}
static void custom()
{
    Holder h, z;
    h.s.v = kls::sym<int>("s");
    h.a.v = kls::sym<int>("a");
    if (kls::choose("o", 2)) { h.o = Ser(); h.o->v = kls::sym<int>("ov"); }
    if (kls::choose("l", 2)) { Adl a; a.v = kls::sym<int>("lv"); h.l.push_back(a); }
    bool skip = kls::choose("skip", 2);
    J w = jobj(), l = jarr();
    for (auto& a : h.l) l.a.push_back(pair_of(jbool(true), a.v));
    w.o = {{"s", pair_of(jnum(11), h.s.v)}, {"a", pair_of(jbool(true), h.a.v)}};
    if (h.o) w.o.push_back({"o", pair_of(jnum(11), h.o->v)});
    else if (!skip) w.o.push_back({"o", J()});
    w.o.push_back({"l", l});
    CHECKM(jsame(tree_of(h, skip), w), "serializing uses the user's conversion");
    CHECKM(jsame(dump_of(h, skip), w), "dumping uses the user's conversion");
    const YAML::Node t = to_yaml(w);
    CHECKM(read(z, t) && z.s.v == h.s.v && z.a.v == h.a.v && z.o.has_value() == h.o.has_value() && (!z.o || z.o->v == h.o->v) && z.l.size() == h.l.size() && (z.l.empty() || z.l[0].v == h.l[0].v), "reading uses the user's conversion");
    Holder p;
    p.s.v = kls::sym<int>("ps");
    p.a.v = kls::sym<int>("pa");
    const Holder was = p;
    CHECKM(apply(p, t) && p.s.v == (was.s.v ^ h.s.v) && p.a.v == (was.a.v ^ h.a.v), "patching uses the user's conversion");
    COVER("custom");
}
static void singles()
{
    y::serialize_context c;
    switch (kls::choose("single", 5)) {
    case 0: CHECKM(y::serialize(nullptr, c).IsNull() && jsame(dump_of(nullptr, false), J()), "null becomes null"); break;
    case 1: {
        const char* t = "text";
        CHECKM(jsame(from_yaml(y::serialize(t, c)), jstr("text")) && jsame(dump_of(t, false), jstr("text")), "a C text becomes a scalar");
        break;
    }
    case 2: {
        const J j = jstr(any_text("t", 2));
        const YAML::Node n = to_yaml(j);
        std::string_view v;
        CHECKM(read(v, n) && v == j.s && v.data() == n.Scalar().data(), "a text view shows the document's text");
        v = "was";
        CHECKM(!read(v, YAML::Node()) && !read(v, YAML::Node(YAML::NodeType::Map)) && v == "was", "a text view of something else is refused");
        break;
    }
    case 3: {
        unsigned char u = kls::sym<unsigned char>("u");
        signed char s = kls::sym<signed char>("s");
        CHECKM(jsame(dump_of(u, true), jnum(u)) && jsame(dump_of(s, true), jnum(s)), "bytes are written as numbers");
        break;
    }
    default: {
        const J j = any_j("j");
        const YAML::Node n = to_yaml(j);
        y::view v(n);
        CHECKM(jsame(tree_of(v, true), j) && jsame(dump_of(v, true), j), "a view is written as what it shows");
        break;
    }
    }
    COVER("singles");
}
extern "C" void kls_harness()
{
    switch (kls::choose("what", 6)) {
    case 0: forms(); break;
    case 1: texts(); break;
    case 2: builders(); break;
    case 3: keys(); break;
    case 4: custom(); break;
    default: singles(); break;
    }
}
#endif
