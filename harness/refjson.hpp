// A small JSON tree of our own, independent of the library under test.
#pragma once
#include "kls.h"
#include <rapidjson/document.h>
#include <string>
#include <utility>
#include <vector>
enum jkind { JNULL, JBOOL, JINT, JSTR, JARR, JOBJ };
struct J {
    jkind k = JNULL;
    int64_t i = 0;
    bool wide = false; // JINT: may lie outside an int
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
};
inline J jint(int64_t v) { J j; j.k = JINT; j.i = v; return j; }
inline J jwide(int64_t v) { J j = jint(v); j.wide = true; return j; }
inline J jbool(bool v) { J j; j.k = JBOOL; j.i = v; return j; }
inline J jstr(const std::string& s) { J j; j.k = JSTR; j.s = s; return j; }
inline J jarr() { J j; j.k = JARR; return j; }
inline J jobj() { J j; j.k = JOBJ; return j; }
inline const J* jfind(const J& j, const std::string& n)
{
    for (auto& m : j.o)
        if (m.first == n) return &m.second;
    return nullptr;
}
inline rapidjson::Value to_rj(const J& j, rapidjson::Document::AllocatorType& al)
{
    using V = rapidjson::Value;
    switch (j.k) {
    case JNULL: return V();
    case JBOOL: return V((bool)j.i);
    case JINT: return j.wide ? V((int64_t)j.i) : V((int)j.i);
    case JSTR: return V(j.s.data(), (rapidjson::SizeType)j.s.size(), al);
    case JARR: {
        V v(rapidjson::kArrayType);
        for (auto& e : j.a) v.PushBack(to_rj(e, al), al);
        return v;
    }
    default: {
        V v(rapidjson::kObjectType);
        for (auto& m : j.o) {
            V n(m.first.data(), (rapidjson::SizeType)m.first.size(), al);
            v.AddMember(n, to_rj(m.second, al), al);
        }
        return v;
    }
    }
}
