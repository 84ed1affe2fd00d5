// Independent reference codec for the wire format used by C05/C06.
#pragma once
#include <cstdint>
#include "kls.h"
#include "kl/binary_rw.hpp"
#include "kl/binary_rw/endian.hpp"
#include "kl/binary_rw/map.hpp"
#include "kl/binary_rw/optional.hpp"
#include "kl/binary_rw/pair.hpp"
#include "kl/binary_rw/set.hpp"
#include "kl/binary_rw/string.hpp"
#include "kl/binary_rw/variant.hpp"
#include "kl/binary_rw/vector.hpp"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <variant>
#include <vector>
enum class en : uint8_t { a, b, c };
using var_t = std::variant<uint8_t, std::string, uint16_t>;
using big32 = boost::endian::big_int32_t;

// ---- reference encoder
struct out {
    std::vector<unsigned char> v;
    template <typename T> void raw(const T& x)
    {
        const unsigned char* p = (const unsigned char*)&x;
        for (size_t i = 0; i < sizeof(T); ++i) v.push_back(p[i]);
    }
};
template <typename T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value, int> = 0> void enc(out& o, const T& x) { o.raw(x); }
inline void enc(out& o, const big32& x)
{
    uint32_t u = (uint32_t)(int32_t)x;
    o.v.push_back(u >> 24);
    o.v.push_back(u >> 16 & 255);
    o.v.push_back(u >> 8 & 255);
    o.v.push_back(u & 255);
}
inline void enc(out& o, const std::string& s);
template <typename T> void enc(out& o, const std::vector<T>& s);
template <typename T> void enc(out& o, const std::set<T>& s);
template <typename K, typename V> void enc(out& o, const std::map<K, V>& s);
template <typename T> void enc(out& o, const std::optional<T>& s);
template <typename K, typename V> void enc(out& o, const std::pair<K, V>& s);
inline void enc(out& o, const var_t& s);
inline void enc(out& o, const std::string& s)
{
    o.raw((uint32_t)s.size());
    for (char c : s) o.raw(c);
}
template <typename T> void enc(out& o, const std::vector<T>& s)
{
    o.raw((uint32_t)s.size());
    for (auto& e : s) enc(o, e);
}
template <typename T> void enc(out& o, const std::set<T>& s)
{
    o.raw((uint32_t)s.size());
    for (auto& e : s) enc(o, e);
}
template <typename K, typename V> void enc(out& o, const std::map<K, V>& s)
{
    o.raw((uint32_t)s.size());
    for (auto& e : s) {
        enc(o, e.first);
        enc(o, e.second);
    }
}
template <typename T> void enc(out& o, const std::optional<T>& s)
{
    o.raw((uint8_t)(s.has_value() ? 1 : 0));
    if (s) enc(o, *s);
}
template <typename K, typename V> void enc(out& o, const std::pair<K, V>& s)
{
    enc(o, s.first);
    enc(o, s.second);
}
inline void enc(out& o, const var_t& s)
{
    o.raw((uint8_t)s.index());
    if (s.index() == 0) enc(o, std::get<0>(s));
    else if (s.index() == 1) enc(o, std::get<1>(s));
    else enc(o, std::get<2>(s));
}

// ---- reference decoder
struct in {
    const unsigned char* p;
    size_t n, pos = 0;
    bool err = false;
    template <typename T> T raw()
    {
        T v{};
        if (err || n - pos < sizeof(T)) {
            err = true;
            return v;
        }
        memcpy(&v, p + pos, sizeof(T));
        pos += sizeof(T);
        return v;
    }
    // a count that cannot be satisfied by the bytes left is an error at any element size >= 1
    uint32_t count()
    {
        uint32_t c = raw<uint32_t>();
        if (err) return 0;
        if (c > n - pos) {
            err = true;
            return 0;
        }
        return c;
    }
};
template <typename T> struct dec_ {
    static T get(in& i) { return i.raw<T>(); }
};
template <> struct dec_<big32> {
    static big32 get(in& i)
    {
        uint32_t u = i.raw<uint32_t>();
        return big32((int32_t)__builtin_bswap32(u));
    }
};
template <> struct dec_<std::string> {
    static std::string get(in& i)
    {
        std::string s;
        uint32_t c = i.count();
        for (uint32_t k = 0; k < c && !i.err; ++k) s.push_back(i.raw<char>());
        return i.err ? std::string() : s;
    }
};
template <typename T> struct dec_<std::vector<T>> {
    static std::vector<T> get(in& i)
    {
        std::vector<T> s;
        uint32_t c = i.count();
        for (uint32_t k = 0; k < c && !i.err; ++k) s.push_back(dec_<T>::get(i));
        return i.err ? std::vector<T>() : s;
    }
};
template <typename T> struct dec_<std::set<T>> {
    static std::set<T> get(in& i)
    {
        std::set<T> s;
        uint32_t c = i.count();
        for (uint32_t k = 0; k < c && !i.err; ++k) s.insert(dec_<T>::get(i));
        return i.err ? std::set<T>() : s;
    }
};
template <typename K, typename V> struct dec_<std::map<K, V>> {
    static std::map<K, V> get(in& i)
    {
        std::map<K, V> s;
        uint32_t c = i.count();
        for (uint32_t k = 0; k < c && !i.err; ++k) {
            K a = dec_<K>::get(i);
            V b = dec_<V>::get(i);
            s.emplace(a, b); // first occurrence wins
        }
        return i.err ? std::map<K, V>() : s;
    }
};
template <typename T> struct dec_<std::optional<T>> {
    static std::optional<T> get(in& i)
    {
        std::optional<T> s;
        uint8_t c = i.raw<uint8_t>();
        if (!i.err && c) s = dec_<T>::get(i);
        return s;
    }
};
template <typename K, typename V> struct dec_<std::pair<K, V>> {
    static std::pair<K, V> get(in& i)
    {
        K a = dec_<K>::get(i);
        V b = dec_<V>::get(i);
        return {a, b};
    }
};
template <> struct dec_<var_t> {
    static var_t get(in& i)
    {
        uint8_t c = i.raw<uint8_t>();
        if (i.err) return {};
        if (c == 0) return var_t{std::in_place_index<0>, dec_<uint8_t>::get(i)};
        if (c == 1) return var_t{std::in_place_index<1>, dec_<std::string>::get(i)};
        if (c == 2) return var_t{std::in_place_index<2>, dec_<uint16_t>::get(i)};
        i.err = true;
        return {};
    }
};

// ---- symbolic values
template <typename T> struct mk_ {
    static T get() { return kls::sym<T>("v"); }
};
template <> struct mk_<en> {
    static en get() { return (en)kls::sym<uint8_t>("en"); }
};
template <> struct mk_<big32> {
    static big32 get() { return big32(kls::sym<int32_t>("be")); }
};
template <> struct mk_<std::string> {
    static std::string get()
    {
        unsigned n = kls::choose("slen", B_SZ + 1);
        std::string s(n, '\0');
        kls::sym_bytes(&s[0], n, "ch");
        return s;
    }
};
template <typename T> struct mk_<std::vector<T>> {
    static std::vector<T> get()
    {
        unsigned n = kls::choose("vlen", B_SZ + 1);
        std::vector<T> s;
        for (unsigned i = 0; i < n; ++i) s.push_back(mk_<T>::get());
        return s;
    }
};
template <typename T> struct mk_<std::set<T>> {
    static std::set<T> get()
    {
        unsigned n = kls::choose("setlen", B_SZ + 1);
        std::set<T> s;
        for (unsigned i = 0; i < n; ++i) s.insert(mk_<T>::get());
        return s;
    }
};
template <typename K, typename V> struct mk_<std::map<K, V>> {
    static std::map<K, V> get()
    {
        unsigned n = kls::choose("maplen", B_SZ + 1);
        std::map<K, V> s;
        for (unsigned i = 0; i < n; ++i) {
            K k = mk_<K>::get();
            s[k] = mk_<V>::get();
        }
        return s;
    }
};
template <typename T> struct mk_<std::optional<T>> {
    static std::optional<T> get()
    {
        if (!kls::choose("has", 2)) return {};
        return mk_<T>::get();
    }
};
template <typename K, typename V> struct mk_<std::pair<K, V>> {
    static std::pair<K, V> get()
    {
        K k = mk_<K>::get();
        return {k, mk_<V>::get()};
    }
};
template <> struct mk_<var_t> {
    static var_t get()
    {
        unsigned k = kls::choose("alt", 3);
        if (k == 0) return var_t{std::in_place_index<0>, mk_<uint8_t>::get()};
        if (k == 1) return var_t{std::in_place_index<1>, mk_<std::string>::get()};
        return var_t{std::in_place_index<2>, mk_<uint16_t>::get()};
    }
};
// a target that already holds something
template <typename T> struct used_ {
    static T get() { return mk_<T>::get(); }
};
template <> struct used_<std::string> {
    static std::string get() { return "old"; }
};
template <typename T> struct used_<std::vector<T>> {
    static std::vector<T> get() { return std::vector<T>(3, used_<T>::get()); }
};
template <typename T> struct used_<std::set<T>> {
    static std::set<T> get() { return {used_<T>::get()}; }
};
template <typename K, typename V> struct used_<std::map<K, V>> {
    static std::map<K, V> get()
    {
        std::map<K, V> s;
        K k = used_<K>::get();
        s[k] = used_<V>::get();
        return s;
    }
};
template <typename T> struct used_<std::optional<T>> {
    static std::optional<T> get() { return used_<T>::get(); }
};
template <typename K, typename V> struct used_<std::pair<K, V>> {
    static std::pair<K, V> get()
    {
        K k = used_<K>::get();
        return {k, used_<V>::get()};
    }
};
template <> struct used_<var_t> {
    static var_t get() { return var_t{std::in_place_index<1>, "old"}; }
};
template <typename T> static T target()
{
    if (kls::choose("used", 2)) return used_<T>::get();
    return T{};
}
#define BIN_TYPES(X)                                                                              \
    X(0, uint32_t) X(1, en) X(2, big32) X(3, std::string) X(4, std::vector<uint16_t>)             \
    X(5, std::vector<std::string>) X(6, (std::map<uint8_t, uint16_t>)) X(7, std::set<uint16_t>)   \
    X(8, std::optional<uint16_t>) X(9, (std::pair<uint8_t, std::string>)) X(10, var_t)            \
    X(11, std::vector<std::vector<uint8_t>>) X(12, (std::map<std::string, std::vector<uint8_t>>)) \
    X(13, std::optional<std::string>) X(14, (std::vector<std::pair<uint8_t, uint16_t>>))          \
    X(15, std::vector<var_t>) X(16, std::vector<en>) X(17, (std::map<uint8_t, std::optional<uint8_t>>)) X(18, std::optional<std::vector<uint16_t>>) \
    X(19, std::set<std::string>) X(20, (std::pair<std::optional<uint8_t>, std::vector<std::string>>)) X(21, uint8_t) X(22, int64_t) X(23, std::vector<big32>) X(24, std::optional<var_t>)
#define BIN_NTYPES 25
template <typename T> struct unparen;
template <typename R, typename A> struct unparen<R(A)> { using type = A; };
