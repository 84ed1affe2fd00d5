// A model of JSON values, of types and of their mapping, independent of the library.
#pragma once
#include "kls.h"
#include <cstring>
#ifndef B_YAML
#include <rapidjson/document.h>
#endif
#include <string>
#include <utility>
#include <vector>
// ---- JSON documents
enum jkind { JNULL, JBOOL, JNUM, JDBL, JSTR, JARR, JOBJ };
enum jrep { R32, RU32, R64, RU64 }; // how a number is to be stored in a tree
struct J {
    jkind k = JNULL;
    jrep rep = R32;
    bool neg = false;  // JNUM: sign
    uint64_t u = 0;    // JBOOL, JNUM (two's complement), JDBL (bits)
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
};
inline J jnum(int v) { J j; j.k = JNUM; j.u = (uint64_t)(int64_t)v; j.neg = v < 0; return j; }
inline J jnum64(int64_t v) { J j; j.k = JNUM; j.u = (uint64_t)v; j.neg = v < 0; j.rep = R64; return j; }
inline J jnumu(uint64_t v) { J j; j.k = JNUM; j.u = v; j.rep = RU64; return j; }
inline J jnumu32(unsigned v) { J j; j.k = JNUM; j.u = v; j.rep = RU32; return j; }
inline J jbool(bool v) { J j; j.k = JBOOL; j.u = v; return j; }
inline J jdbl(double d) { J j; j.k = JDBL; memcpy(&j.u, &d, 8); return j; }
inline J jstr(const std::string& s) { J j; j.k = JSTR; j.s = s; return j; }
inline J jarr() { J j; j.k = JARR; return j; }
inline J jobj() { J j; j.k = JOBJ; return j; }
inline const J* jfind(const J& j, const std::string& n)
{
    for (auto& m : j.o)
        if (m.first == n) return &m.second;
    return nullptr;
}
inline bool jsame(const J& a, const J& b)
{
    if (a.k != b.k || a.s != b.s || a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false;
    bool r = (a.neg == b.neg) & (a.u == b.u);
    for (size_t i = 0; i < a.a.size(); ++i) r &= jsame(a.a[i], b.a[i]);
    for (size_t i = 0; i < a.o.size(); ++i) {
        if (a.o[i].first != b.o[i].first) return false;
        r &= jsame(a.o[i].second, b.o[i].second);
    }
    return r;
}
#ifndef B_YAML
typedef rapidjson::Value RV;
inline RV to_rj(const J& j, rapidjson::Document::AllocatorType& al)
{
    switch (j.k) {
    case JNULL: return RV();
    case JBOOL: return RV((bool)j.u);
    case JNUM:
        switch (j.rep) {
        case R32: return RV((int)j.u);
        case RU32: return RV((unsigned)j.u);
        case R64: return RV((int64_t)j.u);
        default: return RV((uint64_t)j.u);
        }
    case JDBL: {
        double d;
        memcpy(&d, &j.u, 8);
        return RV(d);
    }
    case JSTR: return RV(j.s.data(), (rapidjson::SizeType)j.s.size(), al);
    case JARR: {
        RV v(rapidjson::kArrayType);
        for (auto& e : j.a) v.PushBack(to_rj(e, al), al);
        return v;
    }
    default: {
        RV v(rapidjson::kObjectType);
        for (auto& m : j.o) {
            RV n(m.first.data(), (rapidjson::SizeType)m.first.size(), al);
            v.AddMember(n, to_rj(m.second, al), al);
        }
        return v;
    }
    }
}
inline J from_rj(const RV& v)
{
    if (v.IsNull()) return J();
    if (v.IsBool()) return jbool(v.GetBool());
    if (v.IsString()) return jstr(std::string(v.GetString(), v.GetStringLength()));
    if (v.IsArray()) {
        J j = jarr();
        for (auto& e : v.GetArray()) j.a.push_back(from_rj(e));
        return j;
    }
    if (v.IsObject()) {
        J j = jobj();
        for (auto& m : v.GetObject()) j.o.push_back({std::string(m.name.GetString(), m.name.GetStringLength()), from_rj(m.value)});
        return j;
    }
    if (v.IsInt()) return jnum(v.GetInt());
    if (v.IsUint()) return jnumu(v.GetUint());
    if (v.IsInt64()) return jnum64(v.GetInt64());
    if (v.IsUint64()) return jnumu(v.GetUint64());
    return jdbl(v.GetDouble());
}
// a SAX handler with the interface of rapidjson's writers that builds a J
struct Rec {
    typedef char Ch;
    J root;
    bool ok = true, done = false;
    std::vector<J> open;
    std::vector<std::string> keys;
    bool have_key = false;
    std::string key;
    bool put(const J& j)
    {
        if (done) ok = false;
        if (open.empty()) { root = j; done = true; return true; }
        if (open.back().k == JARR) { ok &= !have_key; open.back().a.push_back(j); }
        else {
            ok &= have_key;
            open.back().o.push_back({key, j});
            have_key = false;
        }
        return true;
    }
    bool begin(jkind k)
    {
        if (done) ok = false;
        J j;
        j.k = k;
        if (!open.empty() && open.back().k == JOBJ) ok &= have_key;
        keys.push_back(key);
        have_key = false;
        open.push_back(j);
        return true;
    }
    bool end(jkind k)
    {
        if (open.empty() || open.back().k != k || have_key) { ok = false; return true; }
        J j = open.back();
        open.pop_back();
        key = keys.back();
        keys.pop_back();
        have_key = !open.empty() && open.back().k == JOBJ;
        return put(j);
    }
    bool Null() { return put(J()); }
    bool Bool(bool b) { return put(jbool(b)); }
    bool Int(int i) { return put(jnum(i)); }
    bool Uint(unsigned i) { return put(jnumu(i)); }
    bool Int64(int64_t i) { return put(jnum64(i)); }
    bool Uint64(uint64_t i) { return put(jnumu(i)); }
    bool Double(double d) { return put(jdbl(d)); }
    bool RawNumber(const char*, unsigned, bool) { ok = false; return true; }
    bool String(const char* p, unsigned n, bool = false) { return put(jstr(std::string(p, n))); }
    bool String(const char* p) { return put(jstr(p)); }
    bool String(const std::string& s) { return put(jstr(s)); }
    bool Key(const char* p, unsigned n, bool = false)
    {
        if (open.empty() || open.back().k != JOBJ || have_key) ok = false;
        key.assign(p, n);
        have_key = true;
        return true;
    }
    bool Key(const char* p) { return Key(p, (unsigned)strlen(p)); }
    bool StartObject() { return begin(JOBJ); }
    bool EndObject(unsigned = 0) { return end(JOBJ); }
    bool StartArray() { return begin(JARR); }
    bool EndArray(unsigned = 0) { return end(JARR); }
};
#endif
// ---- types and values
enum skind { SINT, SBOOL, SDBL, SSTR, SENUM, SSET, SOBJ, SVEC, SFIX, STUP, SMAP, SOPT };
struct V {
    uint64_t u = 0;   // SINT (two's complement), SBOOL, SDBL, SENUM and SSET (member positions)
    std::string s;
    std::vector<V> c; // fields, elements, content, or mapped values
    std::vector<std::string> keys; // SMAP
};
struct F;
struct S {
    skind k = SINT;
    bool sig = true;      // SINT
    unsigned bits = 32;   // SINT; SDBL: 32 or 64
    size_t fixed = 0;     // SFIX
    std::vector<const char*> names; // SENUM, SSET; unnamed enums are SINT
    std::vector<uint64_t> vals;     // SSET: the flags' values
    std::vector<F> f;     // SOBJ
    std::vector<S> e;     // elements; SOPT, SVEC, SFIX, SMAP one; STUP several
    std::vector<V> init;  // SOBJ: how a new one starts
};
struct F {
    std::string name, decl; // serialized and declared name
    std::vector<std::string> alias;
    std::vector<V> def; // default value
    bool missing_ok = false, skip_ser = false, skip_de = false, skip_null = false, emit_null = false, skip_empty = false, flat = false, extra = false;
    bool (*valid)(const V&) = nullptr;
    std::vector<S> s;
    F(const char* n, S t) : name(n), decl(n) { s.push_back(t); }
    F& as(const char* d) { decl = d; return *this; }
    const S& t() const { return s[0]; }
    F& al(const char* a) { alias.push_back(a); return *this; }
    F& dflt(V v) { def.assign(1, v); return *this; }
    F& opt() { missing_ok = true; return *this; }
    F& noser() { skip_ser = true; return *this; }
    F& node() { skip_de = true; return *this; }
    F& sknull() { skip_null = true; return *this; }
    F& emnull() { emit_null = true; return *this; }
    F& skempty() { skip_empty = true; return *this; }
    F& flatten() { flat = true; return *this; }
    F& extras() { extra = true; return *this; }
    F& check(bool (*p)(const V&)) { valid = p; return *this; }
};
inline bool vsame(const V& a, const V& b)
{
    if (a.c.size() != b.c.size() || a.keys != b.keys || a.s != b.s) return false;
    bool r = a.u == b.u;
    for (size_t i = 0; i < a.c.size(); ++i) r &= vsame(a.c[i], b.c[i]);
    return r;
}
inline V v_def(const S& s)
{
    V v;
    if (!s.init.empty()) return s.init[0];
    if (s.k == SOBJ)
        for (auto& f : s.f) v.c.push_back(v_def(f.t()));
    if (s.k == SFIX)
        for (size_t i = 0; i < s.fixed; ++i) v.c.push_back(v_def(s.e[0]));
    if (s.k == STUP)
        for (auto& t : s.e) v.c.push_back(v_def(t));
    return v;
}
inline uint64_t vmask(unsigned bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }
inline bool fits(const S& s, const J& j)
{
    if (s.sig) {
        uint64_t max = vmask(s.bits) >> 1;
        return j.neg ? (~j.u) <= max : j.u <= max;
    }
    return !j.neg & (j.u <= vmask(s.bits));
}
inline void reserved(const S& s, std::vector<std::string>& out)
{
    for (auto& f : s.f) {
        if (f.extra) continue;
        if (f.flat) { reserved(f.t(), out); continue; }
        out.push_back(f.name);
        for (auto& a : f.alias) out.push_back(a);
    }
}
inline bool is_in(const std::vector<std::string>& v, const std::string& n)
{
    for (auto& x : v)
        if (x == n) return true;
    return false;
}
inline bool map_put(V& out, const std::string& k, const V& v) // the first one counts
{
    size_t p = 0;
    while (p < out.keys.size() && out.keys[p] < k) ++p;
    if (p < out.keys.size() && out.keys[p] == k) return false;
    out.keys.insert(out.keys.begin() + (long)p, k);
    out.c.insert(out.c.begin() + (long)p, v);
    return true;
}
// the way from the failing place outwards, as it should appear in the error's text
struct Trail { bool known = true; std::vector<std::string> step; };
inline Trail& g_trail() { static Trail t; return t; }
inline bool via(const char* kind, const std::string& what) // always false: for use in failing returns
{
#ifdef B_TRAIL
    g_trail().step.push_back(std::string(kind) + what.c_str()); // texts end at a NUL
#endif
    return false;
}
inline bool via(size_t index)
{
    char d[2] = {(char)('0' + index), 0};
    return via("element ", d);
}
// what stands for a text: in YAML every scalar does, as it is written
inline bool text_of(const J& j, std::string& t)
{
    if (j.k == JSTR) { t = j.s; return true; }
#ifdef B_YAML // of the others, only the ones used as misplaced values are read as texts
    if (j.k == JBOOL) { t = j.u ? "true" : "false"; return true; }
    if (j.k == JNUM) { kls_assume(!j.neg && j.u < 10); t = std::string(1, (char)('0' + j.u)); return true; }
    if (j.k == JDBL) { t = "0.5"; return true; }
#endif
    return false;
}
bool m_deser(const S& s, V& out, const J& j);
bool m_patch(const S& s, V& out, const J& j);
// the object forms of both; names: everything the outermost object claims for fields
inline bool m_fields(const S& s, V& out, const J& j, bool patch, const std::vector<std::string>& names)
{
    static const J null;
    for (size_t i = 0; i < s.f.size(); ++i) {
        const F& f = s.f[i];
        V& v = out.c[i];
        if (f.skip_de) continue;
        if (f.flat) {
            if (!m_fields(f.t(), v, j, patch, names)) return via("field ", f.decl);
            continue;
        }
        if (f.extra) {
            if (!patch) v = V();
            for (auto& m : j.o) {
                if (is_in(names, m.first)) continue;
                size_t at = 0;
                while (at < v.keys.size() && v.keys[at] != m.first) ++at;
                if (patch && at < v.keys.size()) {
                    if (!m_patch(f.t().e[0], v.c[at], m.second)) return via("extra field ", m.first);
                    continue;
                }
                V x = v_def(f.t().e[0]);
                if (!(patch ? m_patch(f.t().e[0], x, m.second) : m_deser(f.t().e[0], x, m.second))) return via("extra field ", m.first);
                map_put(v, m.first, x);
            }
            continue;
        }
        const J* m = jfind(j, f.name);
        for (size_t a = 0; !m && a < f.alias.size(); ++a) m = jfind(j, f.alias[a]);
        if (!m) {
            if (patch) continue;
            if (!f.def.empty()) { v = f.def[0]; continue; }
            if (f.missing_ok) continue;
            m = &null;
        } else if (m->k == JNULL && !f.def.empty()) {
            v = f.def[0];
            continue;
        }
        if (!(patch ? m_patch(f.t(), v, *m) : m_deser(f.t(), v, *m))) return via("field ", f.decl);
        if (f.valid && !f.valid(v)) return via("field ", f.decl);
    }
    return true;
}
inline bool m_deser(const S& s, V& out, const J& j)
{
    static const J null;
    switch (s.k) {
    case SINT:
        if (j.k != JNUM || !fits(s, j)) return false;
        out.u = j.u & vmask(s.bits);
        return true;
    case SBOOL:
        if (j.k != JBOOL) return false;
        out.u = j.u;
        return true;
    case SDBL: {
        double d;
        if (j.k == JDBL) memcpy(&d, &j.u, 8);
        else if (j.k == JNUM) d = j.neg || j.rep == R32 || j.rep == R64 ? (double)(int64_t)j.u : (double)j.u;
        else return false;
        out.u = 0;
        if (s.bits == 32) {
            float f = (float)d;
            memcpy(&out.u, &f, 4);
        } else
            memcpy(&out.u, &d, 8);
        return true;
    }
    case SSTR: {
        std::string t;
        if (!text_of(j, t)) return false;
        out.s = t;
        return true;
    }
    case SENUM: {
        std::string t;
        if (!text_of(j, t)) return false;
        for (size_t i = 0; i < s.names.size(); ++i)
            if (t == s.names[i]) {
                out.u = i;
                return true;
            }
        return false;
    }
    case SSET:
        if (j.k != JARR) return false;
        out.u = 0;
        for (auto& e : j.a) {
            size_t i = 0;
            std::string t;
            if (!text_of(e, t)) return false;
            while (i < s.names.size() && t != s.names[i]) ++i;
            if (i == s.names.size()) return false;
            out.u |= s.vals[i];
        }
        return true;
    case SOBJ:
        if (j.k == JOBJ) {
            std::vector<std::string> names;
            reserved(s, names);
            return m_fields(s, out, j, false, names);
        }
        if (j.k == JARR) {
            size_t n = 0, at = 0;
            for (auto& f : s.f) {
                if (f.skip_de) continue;
                ++n;
                if (f.extra || f.flat) { g_trail().known = false; return false; }
            }
            if (j.a.size() > n) return false;
            for (size_t i = 0; i < s.f.size(); ++i) {
                if (s.f[i].skip_de) continue;
                if (!m_deser(s.f[i].t(), out.c[i], at < j.a.size() ? j.a[at] : null)) return via(at);
                if (s.f[i].valid && !s.f[i].valid(out.c[i])) return via(at);
                ++at;
            }
            return true;
        }
        return false;
    case SVEC:
        if (j.k != JARR) return false;
        out.c.clear();
        for (auto& e : j.a) {
            V v = v_def(s.e[0]);
            if (!m_deser(s.e[0], v, e)) return via(out.c.size());
            out.c.push_back(v);
        }
        return true;
    case SFIX:
    case STUP: {
        if (j.k != JARR) return false;
        size_t n = s.k == SFIX ? s.fixed : s.e.size();
        if (j.a.size() > n) return false;
        for (size_t i = 0; i < n; ++i)
            if (!m_deser(s.e[s.k == SFIX ? 0 : i], out.c[i], i < j.a.size() ? j.a[i] : null)) return s.k == SFIX && via(i); // tuples do not say which
        return true;
    }
    case SMAP:
        if (j.k != JOBJ) return false;
        out.c.clear();
        out.keys.clear();
        for (auto& m : j.o) {
            V v = v_def(s.e[0]);
            if (!m_deser(s.e[0], v, m.second)) return via("field ", m.first);
            map_put(out, m.first, v);
        }
        return true;
    default: {
        if (j.k == JNULL) { out.c.clear(); return true; }
        V v = v_def(s.e[0]);
        if (!m_deser(s.e[0], v, j)) return false;
        out.c.assign(1, v);
        return true;
    }
    }
}
inline bool m_patch(const S& s, V& out, const J& j)
{
    if (s.k == SOBJ && j.k == JOBJ) {
        std::vector<std::string> names;
        reserved(s, names);
        return m_fields(s, out, j, true, names);
    }
    if (s.k == SOPT && j.k != JNULL) {
        V v = out.c.empty() ? v_def(s.e[0]) : out.c[0];
        if (!m_patch(s.e[0], v, j)) return false;
        out.c.assign(1, v);
        return true;
    }
    return m_deser(s, out, j);
}
// ---- serialization
inline bool is_null(const S& s, const V& v) { return s.k == SOPT && v.c.empty(); }
inline J m_ser(const S& s, const V& v, bool skip_null);
inline void m_ser_fields(const S& s, const V& v, bool skip_null, J& out)
{
    for (size_t i = 0; i < s.f.size(); ++i) {
        const F& f = s.f[i];
        if (f.skip_ser) continue;
        bool null = is_null(f.t(), v.c[i]);
        if (null && !f.emit_null && (f.skip_null || skip_null)) continue;
        if (f.skip_empty && (f.t().k == SSTR ? v.c[i].s.empty() : v.c[i].c.empty())) continue;
        if (f.flat) m_ser_fields(f.t(), v.c[i], skip_null, out);
        else if (f.extra) {
            for (size_t k = 0; k < v.c[i].c.size(); ++k)
                if (!(skip_null && is_null(f.t().e[0], v.c[i].c[k]))) out.o.push_back({v.c[i].keys[k], m_ser(f.t().e[0], v.c[i].c[k], skip_null)});
        } else
            out.o.push_back({f.name, m_ser(f.t(), v.c[i], skip_null)});
    }
}
inline J m_ser(const S& s, const V& v, bool skip_null)
{
    J j;
    switch (s.k) {
    case SINT:
        j.k = JNUM;
        if (s.sig) {
            unsigned sh = 64 - s.bits;
            int64_t x = (int64_t)(v.u << sh) >> sh;
            j.u = (uint64_t)x;
            j.neg = x < 0;
        } else
            j.u = v.u;
        return j;
    case SBOOL: return jbool((bool)v.u);
    case SDBL: {
        double d;
        if (s.bits == 32) {
            float f;
            memcpy(&f, &v.u, 4);
            d = f;
        } else
            memcpy(&d, &v.u, 8);
        return jdbl(d);
    }
    case SSTR: return jstr(v.s);
    case SENUM:
        for (size_t i = 0; i < s.names.size(); ++i)
            if (v.u == i) return jstr(s.names[i]);
        return j;
    case SSET:
        j.k = JARR;
        for (size_t i = 0; i < s.names.size(); ++i)
            if ((v.u & s.vals[i]) == s.vals[i]) j.a.push_back(jstr(s.names[i]));
        return j;
    case SOBJ:
        j.k = JOBJ;
        m_ser_fields(s, v, skip_null, j);
        return j;
    case SVEC:
    case SFIX:
    case STUP:
        j.k = JARR;
        for (size_t i = 0; i < v.c.size(); ++i) j.a.push_back(m_ser(s.e[s.k == STUP ? i : 0], v.c[i], skip_null));
        return j;
    case SMAP:
        j.k = JOBJ;
        for (size_t i = 0; i < v.c.size(); ++i)
            if (!(skip_null && is_null(s.e[0], v.c[i]))) j.o.push_back({v.keys[i], m_ser(s.e[0], v.c[i], skip_null)});
        return j;
    default: return v.c.empty() ? J() : m_ser(s.e[0], v.c[0], skip_null);
    }
}
// ---- documents: suitable for the type except for at most g_wrong places
inline unsigned& g_wrong() { static unsigned n; return n; }
inline bool& g_rich() { static bool b; return b; } // vary how fields are spelt
inline J gen(const S& s, size_t max);
inline void gen_fields(const S& s, size_t max, J& j)
{
    for (auto& f : s.f) {
        if (f.flat) { gen_fields(f.t(), max, j); continue; }
        if (f.extra) {
            size_t n = kls::choose("extras", (unsigned)max + 1);
            static const char* const k[] = {"zz", "yy"};
            for (size_t i = 0; i < n; ++i) {
                unsigned which = kls::choose("xkey", 2);
                j.o.push_back({k[which], gen(f.t().e[0], max)});
            }
            continue;
        }
        bool free = !f.def.empty() || f.missing_ok || f.t().k == SOPT || f.skip_de;
        unsigned how = !g_rich() && !g_wrong() ? 0 : !g_rich() ? (2 + (unsigned)f.alias.size()) * kls::choose("field", free ? 1 : 2) : kls::choose("field", 2 + (unsigned)f.alias.size() + (free ? 1u : g_wrong() ? 1u : 0u));
        // 0: present; 1: twice; then one per alias (and once with both names); last: missing
        if (how == 0) j.o.push_back({f.name, gen(f.t(), max)});
        else if (how == 1) {
            if (f.t().k > SENUM) continue; // missing instead: large fields are not doubled
            J first = gen(f.t(), max), second = gen(f.t(), max);
            j.o.push_back({f.name, first});
            j.o.push_back({f.name, second});
        } else if (how - 2 < f.alias.size()) {
            J first = gen(f.t(), max);
            j.o.push_back({f.alias[how - 2], first});
            if (kls::choose("both", 2)) {
                J second = gen(f.t(), max);
                j.o.push_back({how == 2 && f.alias.size() > 1 ? f.alias[1] : f.name, second});
            }
        } else if (!free) --g_wrong();
    }
}
inline std::string any_text(const char* n, size_t max)
{
    size_t len = kls::choose(n, (unsigned)max + 1);
    std::string s;
    for (size_t i = 0; i < len; ++i) s += kls::sym<char>(n);
    return s;
}
static const std::string map_keys[] = {"", "a", std::string("a\0b", 3)};
inline J gen(const S& s, size_t max)
{
    if (g_wrong() && kls::choose("wrong", 2)) {
        --g_wrong();
        switch (kls::choose("junk", 9)) {
        case 0: return J();
        case 1: return jbool(true);
#ifdef B_YAML
        case 2: return jnum(7);
#else
        case 2: return jnum64(kls::sym<int64_t>("junk"));
#endif
        case 3: return jstr("?");
        case 4: return jarr();
        case 5: return jobj();
        case 6: { J j = jarr(); for (int i = 0; i < 4; ++i) j.a.push_back(jnum(i)); return j; }
        case 7: { J j = jobj(); j.o.push_back({"?", jnum(1)}); return j; }
        default: return jdbl(0.5);
        }
    }
    switch (s.k) {
    case SINT:
        if (s.bits < 32 || (s.bits == 32 && s.sig)) return jnum(kls::sym<int>("int"));
        return s.bits == 32 ? jnumu32(kls::sym<unsigned>("uint")) : s.sig ? jnum64(kls::sym<int64_t>("long")) : jnumu(kls::sym<uint64_t>("ulong"));
    case SBOOL: return jbool(kls::sym_bool("bool"));
    case SDBL: {
        if (kls::choose("whole", 2)) return jnum(kls::sym<int>("int"));
        J j;
        j.k = JDBL;
#ifdef B_YAML
        double d;
        if (s.bits == 32) {
            float f;
            uint32_t b = kls::sym<uint32_t>("float");
            memcpy(&f, &b, 4);
            d = f;
        } else {
            uint64_t b = kls::sym<uint64_t>("double");
            memcpy(&d, &b, 8);
        }
        kls_assume(d == d);
        memcpy(&j.u, &d, 8);
#else
        j.u = kls::sym<uint64_t>("double");
#endif
        return j;
    }
    case SSTR: {
        std::string t = any_text("text", max);
        if (t.size() == max && kls::choose("long", 2)) t += std::string(30, 'l');
        return jstr(t);
    }
    case SENUM: {
        unsigned i = kls::choose("enum", (unsigned)s.names.size());
        return jstr(s.names[i]);
    }
    case SSET: {
        J j = jarr();
        size_t n = kls::choose("setn", (unsigned)max + 1);
        for (size_t i = 0; i < n; ++i) {
            unsigned e = kls::choose("enum", (unsigned)s.names.size());
            j.a.push_back(jstr(s.names[e]));
        }
        return j;
    }
    case SOBJ: {
        bool attr = false;
        for (auto& f : s.f) attr |= !f.def.empty() || f.missing_ok || f.flat || f.extra || !f.alias.empty();
        if (!attr && kls::choose("as_array", 2)) {
            J j = jarr();
            for (auto& f : s.f)
                if (!f.skip_de) j.a.push_back(gen(f.t(), max));
            unsigned n = g_wrong() ? kls::choose("len", 3) : 0;
            if (n) --g_wrong();
            if (n == 1) j.a.push_back(jnum(0));
            else if (n == 2 && !j.a.empty()) j.a.pop_back();
            return j;
        }
        J j = jobj();
        gen_fields(s, max, j);
        return j;
    }
    case SVEC: {
        J j = jarr();
        size_t n = kls::choose("len", (unsigned)max + 1);
        for (size_t i = 0; i < n; ++i) j.a.push_back(gen(s.e[0], max > 1 ? max - 1 : 1));
        return j;
    }
    case SFIX:
    case STUP: {
        J j = jarr();
        size_t full = s.k == SFIX ? s.fixed : s.e.size();
        size_t n = g_wrong() ? kls::choose("len", (unsigned)full + 2) : full;
        if (n != full) --g_wrong();
        for (size_t i = 0; i < n; ++i) j.a.push_back(s.e.empty() ? jnum(0) : gen(s.e[s.k == SFIX || i >= full ? 0 : i], max));
        return j;
    }
    case SMAP: {
        J j = jobj();
        size_t n = kls::choose("len", (unsigned)max + 1);
        for (size_t i = 0; i < n; ++i) {
            unsigned k = kls::choose("key", 3);
            j.o.push_back({map_keys[k], gen(s.e[0], max > 1 ? max - 1 : 1)});
        }
        return j;
    }
    default:
        if (kls::choose("null", 2)) return J();
        return gen(s.e[0], max);
    }
}
