// C20: JSON texts. B_MODE 1: parse of any text; 2: dump and pretty_dump, parsed again; 3: texts with a given frame.
#include "jmodel.hpp"
#include "kl/json.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include <map>
#include <memory>
#include <optional>
// an independent reader of RFC 8259 texts
struct Ref {
    const unsigned char* p;
    const unsigned char* e;
    bool bad = false, lone = false, open = false; // lone: half a surrogate pair; open: a number beyond a double's range; RFC 8259 leaves both to the reader
    int peek() const { return p == e ? -1 : *p; }
    void ws() { while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    bool lit(const char* t)
    {
        for (; *t; ++t, ++p)
            if (p == e || *p != (unsigned char)*t) { bad = true; return false; }
        return true;
    }
    bool digit() const { return p != e && *p >= '0' && *p <= '9'; }
    J number()
    {
        bool neg = false, integral = true, wide = false; // wide: beyond 64 bits, read as a double
        uint64_t u = 0;
        if (peek() == '-') { neg = true; ++p; }
        if (!digit()) { bad = true; return J(); }
        if (*p == '0') ++p;
        else
            while (digit()) {
                unsigned d = *p++ - '0';
                if (u > (UINT64_MAX - d) / 10) wide = true;
                u = u * 10 + d;
            }
        if (peek() == '.') {
            integral = false;
            ++p;
            if (!digit()) { bad = true; return J(); }
            while (digit()) ++p;
        }
        if (peek() == 'e' || peek() == 'E') {
            integral = false;
            ++p;
            if (peek() == '+' || peek() == '-') ++p;
            if (!digit()) { bad = true; return J(); }
            unsigned x = 0;
            for (; digit(); ++p) x = x * 10 + (*p - '0');
            if (x >= 250) open = true;
        }
        if (!integral || wide || (neg && u > (uint64_t)1 << 63)) return jdbl(0);
        J j;
        j.k = JNUM;
        j.u = neg ? 0 - u : u;
        j.neg = neg && u;
        return j;
    }
    unsigned hex4()
    {
        unsigned c = 0;
        for (int i = 0; i < 4; ++i) {
            int h = peek();
            if (h >= '0' && h <= '9') c = c * 16 + (h - '0');
            else if (h >= 'a' && h <= 'f') c = c * 16 + (h - 'a' + 10);
            else if (h >= 'A' && h <= 'F') c = c * 16 + (h - 'A' + 10);
            else { bad = true; return 0; }
            ++p;
        }
        return c;
    }
    std::string text()
    {
        std::string s;
        if (!lit("\"")) return s;
        for (;;) {
            int c = peek();
            if (c < 0x20) { bad = true; return s; } // the end, or a control character
            ++p;
            if (c == '"') return s;
            if (c != '\\') { s.push_back((char)c); continue; }
            c = peek();
            if (c < 0) { bad = true; return s; }
            ++p;
            switch (c) {
            case '"': case '\\': case '/': s.push_back((char)c); break;
            case 'b': s.push_back('\b'); break;
            case 'f': s.push_back('\f'); break;
            case 'n': s.push_back('\n'); break;
            case 'r': s.push_back('\r'); break;
            case 't': s.push_back('\t'); break;
            case 'u': {
                unsigned u = hex4();
                if (bad) return s;
                if (u >= 0xDC00 && u < 0xE000) { bad = lone = true; return s; }
                if (u >= 0xD800 && u < 0xDC00) {
                    if (!lit("\\u")) { lone = true; return s; }
                    unsigned v = hex4();
                    if (bad || v < 0xDC00 || v >= 0xE000) { bad = lone = true; return s; }
                    u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
                }
                if (u < 0x80) s.push_back((char)u);
                else if (u < 0x800) { s.push_back((char)(0xC0 | u >> 6)); s.push_back((char)(0x80 | (u & 63))); }
                else if (u < 0x10000) { s.push_back((char)(0xE0 | u >> 12)); s.push_back((char)(0x80 | (u >> 6 & 63))); s.push_back((char)(0x80 | (u & 63))); }
                else { s.push_back((char)(0xF0 | u >> 18)); s.push_back((char)(0x80 | (u >> 12 & 63))); s.push_back((char)(0x80 | (u >> 6 & 63))); s.push_back((char)(0x80 | (u & 63))); }
                break;
            }
            default: bad = true; return s;
            }
        }
    }
    J value()
    {
        switch (peek()) {
        case '{': {
            J j = jobj();
            ++p;
            ws();
            if (peek() == '}') { ++p; return j; }
            for (;;) {
                std::string k = text();
                if (bad) return j;
                ws();
                if (!lit(":")) return j;
                ws();
                J m = value();
                if (bad) return j;
                j.o.push_back({k, m});
                ws();
                if (peek() == ',') { ++p; ws(); continue; }
                lit("}");
                return j;
            }
        }
        case '[': {
            J j = jarr();
            ++p;
            ws();
            if (peek() == ']') { ++p; return j; }
            for (;;) {
                J m = value();
                if (bad) return j;
                j.a.push_back(m);
                ws();
                if (peek() == ',') { ++p; ws(); continue; }
                lit("]");
                return j;
            }
        }
        case '"': return jstr(text());
        case 't': lit("true"); return jbool(true);
        case 'f': lit("false"); return jbool(false);
        case 'n': lit("null"); return J();
        default: return number();
        }
    }
    bool document(J& out)
    {
        ws();
        out = value();
        if (bad) return false;
        ws();
        return p == e;
    }
};
static void blank_doubles(J& j)
{
    if (j.k == JDBL) j.u = 0;
    for (auto& e : j.a) blank_doubles(e);
    for (auto& m : j.o) blank_doubles(m.second);
}
static void any_text_parses(const char* text, size_t n)
{
    bool nul = false;
    for (size_t i = 0; i < n; ++i) nul |= text[i] == 0;
    bool ok = true;
    J got;
    try {
        const rapidjson::Document doc = kl::json::parse({text, n});
        got = from_rj(doc);
    } catch (const kl::serialization::parse_error& e) {
        ok = false;
        CHECKM(e.what()[0], "a parse error says something");
    }
    if (nul) return; // texts with NUL bytes: it returned or threw parse_error, inside the text
    unsigned char c = n ? (unsigned char)text[0] : 0;
    if (c == 0xEF || c == 0xBB || c == 0xBF) return; // the JSON library's byte-order-mark handling
    Ref r{(const unsigned char*)text, (const unsigned char*)text + n};
    J want;
    if (r.document(want)) {
        if (r.open && !ok) return;
        CHECKM(ok, "a JSON text is accepted");
        if (ok) {
            blank_doubles(got);
            blank_doubles(want);
            CHECKM(jsame(got, want), "the document is what the text says");
        }
        COVER("accepted");
    } else if (!r.lone) {
        CHECKM(!ok, "a text that is not JSON is refused");
        COVER("refused");
    }
}
#if B_MODE == 1
extern "C" void kls_harness()
{
    size_t n = kls::choose("length", B_LEN + 1);
    std::unique_ptr<char[]> t(new char[n]); // exactly the text
    kls::sym_bytes(t.get(), n, "text");
    any_text_parses(t.get(), n);
}
#elif B_MODE == 3
extern "C" void kls_harness()
{
    static const char* const frames[] = {"\"\\u####\"", "\"\\uD8##\\uD##0\"", "[1,##]", "{\"a\":##}", "[null##", "{\"##\":1,\"b\":2}", "tru##", "-1#.#e#", "[[],##]", "429496729#", "214748364##", "1844674407370955161#", "-922337203685477580#", " ## 1 #"};
    std::string f = frames[kls::choose("frame", sizeof frames / sizeof *frames)];
    size_t n = f.size();
    std::unique_ptr<char[]> t(new char[n]);
    for (size_t i = 0; i < n; ++i) t[i] = f[i] == '#' ? (char)kls::sym<uint8_t>("text") : f[i];
    any_text_parses(t.get(), n);
}
#else
enum class Color { red, green = 5, blue = -1 };
KL_REFLECT_ENUM(Color, red, (green, GREEN), blue)
struct Pt {
    int8_t x = 0;
    std::optional<bool> f;
    std::string s;
    bool operator==(const Pt& o) const { return x == o.x && f == o.f && s == o.s; }
};
KL_REFLECT_STRUCT(Pt, x, f, s)
struct Doc {
    std::vector<Pt> pts;
    std::map<std::string, std::vector<Color>> m;
    bool operator==(const Doc& o) const { return pts == o.pts && m == o.m; }
};
KL_REFLECT_STRUCT(Doc, pts, m)
template <typename T> static void round(const T& x)
{
    unsigned how = kls::choose("how", 2);
    std::string text = how ? kl::json::pretty_dump(x) : kl::json::dump(x);
    std::unique_ptr<char[]> t(new char[text.size()]);
    memcpy(t.get(), text.data(), text.size());
    Ref r{(const unsigned char*)t.get(), (const unsigned char*)t.get() + text.size()};
    const rapidjson::Document tree = kl::json::serialize(x);
    J want = from_rj(tree), direct;
    CHECKM(r.document(direct), "what is written is one JSON text");
    blank_doubles(direct);
    J w = want;
    blank_doubles(w);
    CHECKM(jsame(direct, w), "the text says what serializing builds");
    bool threw = false;
    T y{};
    try {
        const rapidjson::Document doc = kl::json::parse({t.get(), text.size()});
        CHECKM(jsame(from_rj(doc), want), "parsing the text gives the serialized document");
        y = kl::json::deserialize<T>(doc);
    } catch (const std::exception&) {
        threw = true;
    }
    CHECKM(!threw, "the text can be read back");
    if (!threw) CHECKM(y == x, "reading the text back yields the value");
    COVER("round");
}
static std::string any(const char* n, unsigned max)
{
    std::string s(kls::choose("length", max + 1), 0);
    for (auto& c : s) c = (char)kls::sym<uint8_t>(n);
    return s;
}
extern "C" void kls_harness()
{
    static const int64_t big[] = {INT64_MIN, INT64_MIN + 1, -4294967297, -4294967296, -2147483649, -2147483648, 2147483647, 2147483648, 4294967295, 4294967296, INT64_MAX};
    static const double dbl[] = {0.0, 1.5, -2.25, 1024.0, 1e10, 123456.5, -0.125};
    switch (kls::choose("type", 13)) {
    case 0: return round(any("text", B_TEXT));
    case 1: return round(kls::sym<int8_t>("value"));
    case 2: return round(kls::sym<uint16_t>("value"));
    case 3: return round(big[kls::choose("value", 11)]);
    case 4: return round(kls::choose("value", 2) ? UINT64_MAX : (uint64_t)INT64_MAX + 1);
    case 5: return round(dbl[kls::choose("value", 7)]);
    case 6: return round(kls::choose("value", 2) == 1);
    case 7: {
        std::vector<int8_t> v(kls::choose("size", 3));
        for (auto& e : v) e = kls::sym<int8_t>("value");
        return round(v);
    }
    case 8: {
        std::map<std::string, std::optional<int8_t>> m;
        std::string k = any("key", 2);
        m[k] = kls::sym<int8_t>("value");
        return round(m);
    }
    case 9: {
        std::optional<std::string> o;
        if (kls::choose("engaged", 2)) o = any("text", 1);
        return round(o);
    }
    case 10: return round(std::make_pair(kls::choose("value", 2) == 1, any("text", 1)));
    case 11: {
        Pt p;
        p.x = kls::sym<int8_t>("x");
        if (kls::choose("engaged", 2)) p.f = kls::choose("flag", 2) == 1;
        p.s = any("text", 1);
        return round(p);
    }
    default: {
        Doc d;
        d.pts.resize(kls::choose("size", 3));
        for (auto& p : d.pts) { p.x = (int8_t)kls::choose("x", 3) - 1; p.s = "q"; }
        static const Color c[] = {Color::red, Color::green, Color::blue};
        unsigned n = kls::choose("entries", 3);
        if (n > 0) d.m["a"] = {c[kls::choose("color", 3)]};
        if (n > 1) d.m[any("key", 1)];
        return round(d);
    }
    }
}
#endif
