// The types used against the model, their model schemas and values, and any values of them.
#pragma once
#include "kl/enum_set.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
namespace sa = kl::serialization::attributes;
enum class Color { red, green = 5, blue = -1 };
KL_REFLECT_ENUM(Color, red, (green, GREEN), blue)
enum class Flag : unsigned { one = 1, two = 2, four = 4 };
KL_REFLECT_ENUM(Flag, one, two, four)
enum class Mask : uint8_t { a = 1, ab = 3, b = 2, top = 0x80 }; // one flag contains others
KL_REFLECT_ENUM(Mask, a, ab, b, top)
enum class Plain16 : int16_t { p };

template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> static S s_of(const T*) { S s; s.bits = sizeof(T) * 8; s.sig = std::is_signed_v<T>; return s; }
static S s_of(const bool*) { S s; s.k = SBOOL; return s; }
static S s_of(const double*) { S s; s.k = SDBL; s.bits = 64; return s; }
static S s_of(const float*) { S s; s.k = SDBL; s.bits = 32; return s; }
static S s_of(const std::string*) { S s; s.k = SSTR; return s; }
static S s_of(const Color*) { S s; s.k = SENUM; s.names = {"red", "GREEN", "blue"}; return s; }
static S s_of(const kl::enum_set<Flag>*) { S s; s.k = SSET; s.names = {"one", "two", "four"}; s.vals = {1, 2, 4}; return s; }
static S s_of(const kl::enum_set<Mask>*) { S s; s.k = SSET; s.names = {"a", "ab", "b", "top"}; s.vals = {1, 3, 2, 0x80}; return s; }
static S s_of(const Plain16*) { S s; s.bits = 16; return s; }
template <typename T> static S s_of(const std::vector<T>*);
template <typename T> static S s_of(const std::deque<T>*);
template <typename T> static S s_of(const std::list<T>*);
template <typename T> static S s_of(const std::optional<T>*);
template <typename T> static S s_of(const std::map<std::string, T>*);
template <typename T, size_t N> static S s_of(const std::array<T, N>*);
template <typename... T> static S s_of(const std::tuple<T...>*);
template <typename A, typename B> static S s_of(const std::pair<A, B>*);
template <typename T> static V v_of(const std::vector<T>&);
template <typename T> static V v_of(const std::deque<T>&);
template <typename T> static V v_of(const std::list<T>&);
template <typename T> static V v_of(const std::optional<T>&);
template <typename T> static V v_of(const std::map<std::string, T>&);
template <typename T, size_t N> static V v_of(const std::array<T, N>&);
template <typename... T> static V v_of(const std::tuple<T...>&);
template <typename A, typename B> static V v_of(const std::pair<A, B>&);
template <typename T> static void fill(std::vector<T>&);
template <typename T> static void fill(std::deque<T>&);
template <typename T> static void fill(std::list<T>&);
template <typename T> static void fill(std::optional<T>&);
template <typename T> static void fill(std::map<std::string, T>&);
template <typename T, size_t N> static void fill(std::array<T, N>&);
template <typename... T> static void fill(std::tuple<T...>&);
template <typename A, typename B> static void fill(std::pair<A, B>&);
template <typename T> static S s_seq(skind k) { S s; s.k = k; s.e = {s_of((T*)0)}; return s; }
template <typename T> static S s_of(const std::vector<T>*) { return s_seq<T>(SVEC); }
template <typename T> static S s_of(const std::deque<T>*) { return s_seq<T>(SVEC); }
template <typename T> static S s_of(const std::list<T>*) { return s_seq<T>(SVEC); }
template <typename T> static S s_of(const std::optional<T>*) { return s_seq<T>(SOPT); }
template <typename T> static S s_of(const std::map<std::string, T>*) { return s_seq<T>(SMAP); }
template <typename T, size_t N> static S s_of(const std::array<T, N>*) { S s = s_seq<T>(SFIX); s.fixed = N; return s; }
template <typename... T> static S s_of(const std::tuple<T...>*) { S s; s.k = STUP; s.e = {s_of((T*)0)...}; return s; }
template <typename A, typename B> static S s_of(const std::pair<A, B>*) { S s; s.k = STUP; s.e = {s_of((A*)0), s_of((B*)0)}; return s; }

template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> static V v_of(const T& x) { V v; v.u = (uint64_t)x & vmask(sizeof(T) * 8); return v; }
static V v_of(const bool& x) { V v; v.u = x; return v; }
static V v_of(const double& x) { V v; memcpy(&v.u, &x, 8); return v; }
static V v_of(const float& x) { V v; memcpy(&v.u, &x, 4); return v; }
static V v_of(const std::string& x) { V v; v.s = x; return v; }
static V v_of(const Color& x) { V v; v.u = x == Color::red ? 0 : x == Color::green ? 1 : x == Color::blue ? 2 : 99; return v; }
static V v_of(const kl::enum_set<Flag>& x) { V v; v.u = x.underlying_value(); return v; }
static V v_of(const kl::enum_set<Mask>& x) { V v; v.u = x.underlying_value(); return v; }
static V v_of(const Plain16& x) { V v; v.u = (uint16_t)x; return v; }
template <typename C> static V v_seq(const C& x) { V v; for (const auto& e : x) v.c.push_back(v_of(e)); return v; }
template <typename T> static V v_of(const std::vector<T>& x) { return v_seq(x); }
template <typename T> static V v_of(const std::deque<T>& x) { return v_seq(x); }
template <typename T> static V v_of(const std::list<T>& x) { return v_seq(x); }
template <typename T, size_t N> static V v_of(const std::array<T, N>& x) { return v_seq(x); }
template <typename T> static V v_of(const std::optional<T>& x) { V v; if (x) v.c.push_back(v_of(*x)); return v; }
template <typename T> static V v_of(const std::map<std::string, T>& x) { V v; for (auto& e : x) { v.keys.push_back(e.first); v.c.push_back(v_of(e.second)); } return v; }
template <typename... T> static V v_of(const std::tuple<T...>& x) { V v; std::apply([&](auto&... e) { (v.c.push_back(v_of(e)), ...); }, x); return v; }
template <typename A, typename B> static V v_of(const std::pair<A, B>& x) { V v; v.c = {v_of(x.first), v_of(x.second)}; return v; }

#ifndef B_MAX
#define B_MAX 2
#endif
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> static void fill(T& x) { x = kls::sym<T>("value"); }
static void fill(bool& x) { x = kls::sym_bool("value"); }
static void fill(double& x)
{
    uint64_t b = kls::sym<uint64_t>("value");
    memcpy(&x, &b, 8);
#ifdef B_YAML
    kls_assume(x == x); // a text has no payload
#endif
}
static void fill(float& x) { uint32_t b = kls::sym<uint32_t>("value"); memcpy(&x, &b, 4); kls_assume(x == x); }
static void fill(std::string& x)
{
    x = any_text("value", B_MAX);
    if (x.size() == B_MAX && kls::choose("long", 2)) x += std::string(30, 'l'); // beyond every inline capacity
}
static void fill(Color& x) { static const Color c[] = {Color::red, Color::green, Color::blue}; x = c[kls::choose("value", 3)]; }
static void fill(kl::enum_set<Flag>& x)
{
    unsigned b = kls::choose("value", 8);
    if (b & 1) x |= Flag::one;
    if (b & 2) x |= Flag::two;
    if (b & 4) x |= Flag::four;
}
static void fill(kl::enum_set<Mask>& x)
{
    unsigned b = kls::choose("value", 8);
    if (b & 1) x |= Mask::a;
    if (b & 2) x |= Mask::b;
    if (b & 4) x |= Mask::top;
}
static void fill(Plain16& x) { x = (Plain16)kls::sym<int16_t>("value"); }
template <typename C> static void fill_seq(C& x)
{
    size_t n = kls::choose("size", B_MAX + 1);
    for (size_t i = 0; i < n; ++i) { typename C::value_type t{}; fill(t); x.push_back(t); }
}
template <typename T> static void fill(std::vector<T>& x) { fill_seq(x); }
template <typename T> static void fill(std::deque<T>& x) { fill_seq(x); }
template <typename T> static void fill(std::list<T>& x) { fill_seq(x); }
template <typename T, size_t N> static void fill(std::array<T, N>& x) { for (auto& e : x) fill(e); }
template <typename T> static void fill(std::optional<T>& x) { if (kls::choose("engaged", 2)) { T t{}; fill(t); x = t; } }
template <typename T> static void fill(std::map<std::string, T>& x)
{
    size_t n = kls::choose("size", B_MAX + 1);
    for (size_t i = 0; i < n; ++i) { T t{}; fill(t); x.emplace(map_keys[i], t); }
}
template <typename... T> static void fill(std::tuple<T...>& x) { std::apply([&](auto&... e) { (fill(e), ...); }, x); }
template <typename A, typename B> static void fill(std::pair<A, B>& x) { fill(x.first); fill(x.second); }

#include "json_types.hpp"
#ifdef B_TRAIL
// after the reason, one line per step outwards; lines naming a type come in between
static void check_trail(const char* what)
{
    const Trail& t = g_trail();
    if (!t.known) return;
    std::vector<std::string> line(1);
    for (; *what; ++what)
        if (*what == '\n') line.emplace_back();
        else line.back() += *what;
    CHECKM(!line[0].empty(), "an error starts with its reason");
    size_t at = 0;
    for (size_t i = 1; i < line.size(); ++i) {
        const std::string& l = line[i];
        if (l.find(" type ") != std::string::npos) continue;
        if (at == t.step.size()) { CHECKM(false, "an error names no step that was not taken"); return; }
        const std::string& w = t.step[at++];
        bool ok = l.size() > w.size() && l.compare(l.size() - w.size(), w.size(), w) == 0 && l[l.size() - w.size() - 1] == ' ';
        if (ok && w.compare(0, 6, "field ") == 0) ok = l.find("extra field ") == std::string::npos;
        CHECKM(ok, "an error names the failing place from the inside outwards");
        if (!ok) return;
    }
    CHECKM(at == t.step.size(), "an error names every step to the failing place");
    COVER(at > 1 ? "deep" : "flat");
}
#endif
