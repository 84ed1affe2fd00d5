// A stand-in for yaml-cpp (third-party code, not in the repository): its documented behaviour,
// with numbers kept as values instead of texts so that they can stay symbolic.
//  - Nodes are references: copies share, assignment re-targets what the left side referred to.
//  - Reading a missing member through a const node gives an invalid node; through a
//    non-const one it creates an undefined member, which is not iterated.
//  - Maps keep their order and may hold a key several times; the first one is found.
#pragma once
#include "yaml-cpp/node/type.h"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" void kls_assume(int cond);
namespace YAML {
struct Mark {
    int pos = -1, line = -1, column = -1;
    static const Mark null_mark() { return Mark(); }
    bool is_null() const { return pos == -1 && line == -1 && column == -1; }
};
class Exception : public std::runtime_error {
public:
    Exception(const YAML::Mark& m, const std::string& s) : std::runtime_error(s), mark(m), msg(s) {}
    YAML::Mark mark;
    std::string msg;
};
class ParserException : public Exception {
public:
    ParserException(const YAML::Mark& m, const std::string& s) : Exception(m, s) {}
};
class RepresentationException : public Exception {
public:
    RepresentationException(const YAML::Mark& m, const std::string& s) : Exception(m, s) {}
};
class InvalidNode : public RepresentationException {
public:
    InvalidNode(const std::string&) : RepresentationException(Mark(), "invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa") {}
};
class BadConversion : public RepresentationException {
public:
    explicit BadConversion(const YAML::Mark& m) : RepresentationException(m, "bad conversion") {}
};
template <typename T> class TypedBadConversion : public BadConversion {
public:
    explicit TypedBadConversion(const YAML::Mark& m) : BadConversion(m) {}
};
class BadSubscript : public RepresentationException {
public:
    BadSubscript() : RepresentationException(Mark(), "operator[] call on a scalar") {}
};
class BadPushback : public RepresentationException {
public:
    BadPushback() : RepresentationException(Mark(), "appending to a non-sequence") {}
};
class BadInsert : public RepresentationException {
public:
    BadInsert() : RepresentationException(Mark(), "inserting in a non-convertible-to-map") {}
};
class BadDereference : public RepresentationException {
public:
    BadDereference() : RepresentationException(Mark(), "bad dereference") {}
};
struct _Null {};
inline bool operator==(const _Null&, const _Null&) { return true; }
inline bool operator!=(const _Null&, const _Null&) { return false; }
static const _Null Null = _Null();

namespace model {
enum sckind { TEXT, INT, REAL, BOOL };
struct scalar {
    sckind k = TEXT;
    bool neg = false;  // INT
    bool single = false; // REAL: written from a float
    uint64_t u = 0;    // INT (two's complement), REAL (bits of a double), BOOL
    mutable std::string text;
    mutable bool have = true; // whether the text is known
    const std::string& str() const
    {
        if (have) return text;
        have = true;
        if (k == BOOL) text = u ? "true" : "false";
        else if (k == INT) {
            uint64_t m = neg ? 0 - u : u;
            char d[24];
            int at = 24;
            do d[--at] = (char)('0' + m % 10); while (m /= 10);
            if (neg) d[--at] = '-';
            text.assign(d + at, (size_t)(24 - at));
        } else {
            double v = real();
            kls_assume(v == 0.5); // the only real number whose text is looked at
            text = "0.5";
        }
        return text;
    }
    double real() const { double d; memcpy(&d, &u, 8); return d; }
};
template <typename T> scalar of_int(T v) { scalar s; s.k = INT; s.have = false; s.u = (uint64_t)(typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type)v; s.neg = v < 0; return s; }
inline scalar of_real(double d, bool single) { scalar s; s.k = REAL; s.have = false; s.single = single; memcpy(&s.u, &d, 8); return s; }
inline scalar of_bool(bool b) { scalar s; s.k = BOOL; s.have = false; s.u = b; return s; }
inline scalar of_text(std::string t) { scalar s; s.text = std::move(t); return s; }
// a text as a whole number: sign, then decimal, 0 octal or 0x hexadecimal digits, nothing else
inline bool parse_int(const std::string& t, scalar& out, bool bases = true)
{
    size_t i = 0;
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    unsigned base = 10;
    if (bases && i + 1 < t.size() && t[i] == '0') {
        if (t[i + 1] == 'x' || t[i + 1] == 'X') { base = 16; i += 2; }
        else { base = 8; ++i; }
    }
    if (i == t.size()) return false;
    uint64_t u = 0;
    for (; i < t.size(); ++i) {
        unsigned char c = (unsigned char)t[i];
        unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d >= base || u > (~0ull - d) / base) return false;
        u = u * base + d;
    }
    out = scalar();
    out.k = INT;
    out.neg = neg && u;
    out.u = neg ? 0 - u : u;
    return !neg || u <= 1ull << 63;
}
inline bool parse_bool(const std::string& t, bool& out)
{
    static const char* const names[][2] = {{"y", "n"}, {"yes", "no"}, {"true", "false"}, {"on", "off"}};
    std::string low;
    size_t upper = 0;
    for (char c : t) {
        upper += c >= 'A' && c <= 'Z';
        low += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
    }
    if (upper && upper != t.size() && !(upper == 1 && t[0] >= 'A' && t[0] <= 'Z')) return false;
    for (auto& n : names)
        for (int v = 0; v < 2; ++v)
            if (low == n[v]) { out = !v; return true; }
    return false;
}
template <typename T> bool get_int(const scalar& from, T& out)
{
    scalar s = from;
    if (s.k == BOOL) return false;
    if (s.k == REAL) {
        double d = s.real();
        kls_assume(d != std::trunc(d)); // whether a whole real number reads as an integer depends on its text
        return false;
    }
    if (s.k == TEXT && !parse_int(from.text, s)) return false;
    uint64_t max = (uint64_t)std::numeric_limits<T>::max();
    if (std::is_signed<T>::value ? (s.neg ? ~s.u > max : s.u > max) : (s.neg || s.u > max)) return false;
    out = (T)s.u;
    return true;
}
template <typename T> bool get_real(const scalar& s, T& out)
{
    if (s.k == REAL) {
        kls_assume(!(s.single && sizeof(T) == 8)); // the text has no more digits than a float needs
        double d = s.real();
        out = (T)d;
        kls_assume((double)out == d || d != d); // nor are values rounded that the type cannot hold
        return true;
    }
    scalar i = s;
    if (s.k == BOOL || (s.k == TEXT && !parse_int(s.text, i, false))) return false; // of real numbers in texts, only whole decimal ones
    out = i.neg ? (T)(int64_t)i.u : (T)i.u;
    return true;
}
struct node;
struct data {
    NodeType::value type = NodeType::Undefined;
    scalar sc;
    std::vector<std::shared_ptr<node>> seq;
    std::vector<std::pair<std::shared_ptr<node>, std::shared_ptr<node>>> map;
};
struct ref { std::shared_ptr<data> d; };
struct node {
    std::shared_ptr<ref> r;
    node() : r(std::make_shared<ref>()) { r->d = std::make_shared<data>(); }
    data& d() const { return *r->d; }
    bool defined() const { return d().type != NodeType::Undefined; }
};
typedef std::shared_ptr<node> np;
inline void set(data& d, scalar s) { d.type = NodeType::Scalar; d.sc = std::move(s); d.seq.clear(); d.map.clear(); }
} // namespace model

class Node;
template <typename T, typename = void> struct convert;
namespace detail {
struct iterator_value;
template <typename K, typename = void> struct index_of { static bool get(const K&, std::size_t&) { return false; } };
template <typename K> struct index_of<K, typename std::enable_if<std::is_integral<K>::value && !std::is_same<K, bool>::value>::type> {
    static bool get(const K& k, std::size_t& i) { if (k < 0) return false; i = (std::size_t)k; return true; }
};
} // namespace detail
class Node {
public:
    class const_iterator;
    typedef const_iterator iterator;
    Node() {}
    explicit Node(NodeType::value t) : n_(std::make_shared<model::node>()) { n_->d().type = t; }
    template <typename T> explicit Node(const T& v) : n_(std::make_shared<model::node>()) { Assign(v); }
    explicit Node(const detail::iterator_value& v);
    Node(const Node&) = default;
    ~Node() = default;
    YAML::Mark Mark() const { check(); return YAML::Mark(); }
    NodeType::value Type() const { check(); return n_ ? n_->d().type : NodeType::Null; }
    bool IsDefined() const { return valid_ && (!n_ || n_->defined()); }
    bool IsNull() const { return Type() == NodeType::Null; }
    bool IsScalar() const { return Type() == NodeType::Scalar; }
    bool IsSequence() const { return Type() == NodeType::Sequence; }
    bool IsMap() const { return Type() == NodeType::Map; }
    explicit operator bool() const { return IsDefined(); }
    bool operator!() const { return !IsDefined(); }
    template <typename T> T as() const
    {
        check();
        if constexpr (std::is_same<T, std::string>::value)
            if (Type() == NodeType::Null) return "null";
        T t;
        if (!n_ || !convert<T>::decode(*this, t)) throw TypedBadConversion<T>(Mark());
        return t;
    }
    template <typename T, typename S> T as(const S& fallback) const
    {
        if (!valid_ || !n_) return fallback;
        T t;
        return convert<T>::decode(*this, t) ? t : T(fallback);
    }
    const std::string& Scalar() const
    {
        check();
        static const std::string none;
        return n_ && n_->d().type == NodeType::Scalar ? n_->d().sc.str() : none;
    }
    const std::string& Tag() const { static const std::string none; check(); return none; }
    void SetTag(const std::string&) { ensure(); }
    bool is(const Node& o) const
    {
        if (!valid_ || !o.valid_) throw InvalidNode("");
        return n_ && o.n_ && n_->r == o.n_->r;
    }
    template <typename T> Node& operator=(const T& v) { Assign(v); return *this; }
    Node& operator=(const Node& o)
    {
        if (is(o)) return *this;
        o.ensure();
        if (n_) n_->r = o.n_->r;
        n_ = o.n_;
        return *this;
    }
    void reset(const Node& o = Node())
    {
        if (!valid_ || !o.valid_) throw InvalidNode("");
        n_ = o.n_;
    }
    std::size_t size() const
    {
        check();
        if (!n_) return 0;
        std::size_t n = 0;
        if (IsSequence())
            for (auto& e : n_->d().seq) { if (!e->defined()) break; ++n; }
        else if (IsMap())
            for (auto& e : n_->d().map) n += e.first->defined() && e.second->defined();
        return n;
    }
    const_iterator begin() const;
    const_iterator end() const;
    template <typename T> void push_back(const T& v) { check(); push_back(Node(v)); }
    void push_back(const Node& v)
    {
        ensure();
        v.ensure();
        model::data& d = n_->d();
        if (d.type == NodeType::Undefined || d.type == NodeType::Null) d.type = NodeType::Sequence;
        if (d.type != NodeType::Sequence) throw BadPushback();
        d.seq.push_back(v.n_);
    }
    template <typename K> const Node operator[](const K& key) const
    {
        ensure();
        model::data& d = n_->d();
        std::size_t i;
        switch (d.type) {
        case NodeType::Scalar: throw BadSubscript();
        case NodeType::Sequence: return detail::index_of<K>::get(key, i) && i < d.seq.size() ? Node(d.seq[i]) : zombie();
        case NodeType::Map:
            for (auto& m : d.map)
                if (equals(m.first, key)) return Node(m.second);
        default: return zombie();
        }
    }
    template <typename K> Node operator[](const K& key)
    {
        ensure();
        model::data& d = n_->d();
        std::size_t i;
        if (d.type == NodeType::Scalar) throw BadSubscript();
        if (d.type != NodeType::Map) {
            if (detail::index_of<K>::get(key, i) && i <= d.seq.size() && (!i || d.seq[i - 1]->defined())) {
                d.type = NodeType::Sequence;
                if (i == d.seq.size()) d.seq.push_back(std::make_shared<model::node>());
                return Node(d.seq[i]);
            }
            to_map();
        }
        for (auto& m : d.map)
            if (equals(m.first, key)) return Node(m.second);
        d.map.push_back({make(key), std::make_shared<model::node>()});
        return Node(d.map.back().second);
    }
    const Node operator[](const Node& key) const
    {
        ensure();
        key.ensure();
        for (auto& m : n_->d().map)
            if (m.first->r == key.n_->r) return Node(m.second);
        return zombie();
    }
    Node operator[](const Node& key)
    {
        ensure();
        key.ensure();
        if (n_->d().type == NodeType::Scalar) throw BadSubscript();
        if (n_->d().type != NodeType::Map) to_map();
        for (auto& m : n_->d().map)
            if (m.first->r == key.n_->r) return Node(m.second);
        n_->d().map.push_back({key.n_, std::make_shared<model::node>()});
        return Node(n_->d().map.back().second);
    }
    template <typename K> bool remove(const K& key)
    {
        ensure();
        model::data& d = n_->d();
        std::size_t i;
        if (d.type == NodeType::Sequence) {
            if (!detail::index_of<K>::get(key, i) || i >= d.seq.size()) return false;
            d.seq.erase(d.seq.begin() + (long)i);
            return true;
        }
        for (std::size_t k = 0; k < d.map.size(); ++k)
            if (equals(d.map[k].first, key)) { d.map.erase(d.map.begin() + (long)k); return true; }
        return false;
    }
    template <typename K, typename V> void force_insert(const K& key, const V& value)
    {
        ensure();
        if (n_->d().type == NodeType::Scalar) throw BadInsert();
        if (n_->d().type != NodeType::Map) to_map();
        auto k = make(key), v = make(value);
        n_->d().map.push_back({k, v});
    }
    // for the stand-in's users
    const model::scalar& kls_scalar() const { return n_->d().sc; }
    void kls_set(model::scalar s) { ensure(); model::set(n_->d(), std::move(s)); }
    const void* kls_data() const { return n_ ? n_->r->d.get() : nullptr; }
private:
    friend class const_iterator;
    friend Node Clone(const Node&);
    explicit Node(const model::np& n) : n_(n) {}
    static Node zombie() { Node n; n.valid_ = false; return n; }
    void check() const { if (!valid_) throw InvalidNode(""); }
    void ensure() const
    {
        check();
        if (!n_) { n_ = std::make_shared<model::node>(); n_->d().type = NodeType::Null; }
    }
    void to_map()
    {
        model::data& d = n_->d();
        for (std::size_t i = 0; i < d.seq.size(); ++i) d.map.push_back({make(i), d.seq[i]});
        d.seq.clear();
        d.type = NodeType::Map;
    }
    static model::np make(const Node& v) { v.ensure(); return v.n_; }
    template <typename T> static model::np make(const T& v) { return Node(v).n_; }
    static model::np make(const char* v) { return Node(std::string(v)).n_; }
    template <typename K> static bool equals(const model::np& n, const K& key)
    {
        K have;
        return convert<K>::decode(Node(n), have) && have == key;
    }
    static bool equals(const model::np& n, const char* key) { std::string s; return Node(n).text(s) && s == key; }
    template <std::size_t N> static bool equals(const model::np& n, const char (&key)[N]) { return equals(n, (const char*)key); }
    bool text(std::string& out) const { if (!IsScalar()) return false; out = Scalar(); return true; }
    template <typename T> void Assign(const T& v);
    mutable model::np n_;
    bool valid_ = true;
};
inline bool operator==(const Node& a, const Node& b) { return a.is(b); }
namespace detail {
struct iterator_value : public Node, std::pair<Node, Node> {
    iterator_value() {}
    explicit iterator_value(const Node& n) : Node(n), std::pair<Node, Node>() {}
    explicit iterator_value(const Node& k, const Node& v) : Node(), std::pair<Node, Node>(k, v) {}
};
} // namespace detail
inline Node::Node(const detail::iterator_value& v) : Node(static_cast<const Node&>(v)) {}
class Node::const_iterator {
public:
    typedef std::forward_iterator_tag iterator_category;
    typedef detail::iterator_value value_type;
    typedef std::ptrdiff_t difference_type;
    typedef detail::iterator_value* pointer;
    typedef detail::iterator_value reference;
    struct proxy { value_type v; value_type* operator->() { return &v; } };
    const_iterator() {}
    const_iterator(const model::np& n, std::size_t at) : n_(n), at_(at) { skip(); }
    const_iterator& operator++() { ++at_; skip(); return *this; }
    const_iterator operator++(int) { const_iterator o = *this; ++*this; return o; }
    bool operator==(const const_iterator& o) const { return n_ == o.n_ && at_ == o.at_; }
    bool operator!=(const const_iterator& o) const { return !(*this == o); }
    value_type operator*() const
    {
        if (n_->d().type == NodeType::Sequence) return value_type(Node(n_->d().seq[at_]));
        return value_type(Node(n_->d().map[at_].first), Node(n_->d().map[at_].second));
    }
    proxy operator->() const { return proxy{**this}; }
private:
    void skip()
    {
        if (!n_ || n_->d().type != NodeType::Map) return;
        auto& m = n_->d().map;
        while (at_ < m.size() && !(m[at_].first->defined() && m[at_].second->defined())) ++at_;
    }
    model::np n_;
    std::size_t at_ = 0;
};
typedef Node::const_iterator const_iterator;
typedef Node::const_iterator iterator;
inline Node::const_iterator Node::begin() const { return valid_ && n_ && (IsSequence() || IsMap()) ? const_iterator(n_, 0) : const_iterator(); }
inline Node::const_iterator Node::end() const { return valid_ && n_ && (IsSequence() || IsMap()) ? const_iterator(n_, IsSequence() ? size() : n_->d().map.size()) : const_iterator(); }
template <> struct convert<Node> {
    static Node encode(const Node& v) { return v; }
    static bool decode(const Node& n, Node& v) { v.reset(n); return true; }
};
template <> struct convert<std::string> {
    static Node encode(const std::string& v) { Node n; n.kls_set(model::of_text(v)); return n; }
    static bool decode(const Node& n, std::string& v) { if (!n.IsScalar()) return false; v = n.Scalar(); return true; }
};
template <> struct convert<std::string_view> {
    static Node encode(std::string_view v) { return convert<std::string>::encode(std::string(v)); }
    static bool decode(const Node& n, std::string_view& v) { if (!n.IsScalar()) return false; v = n.Scalar(); return true; }
};
template <> struct convert<const char*> { static Node encode(const char* v) { return convert<std::string>::encode(v); } };
template <> struct convert<char*> { static Node encode(const char* v) { return convert<std::string>::encode(v); } };
template <std::size_t N> struct convert<char[N]> { static Node encode(const char* v) { return convert<std::string>::encode(v); } };
template <> struct convert<_Null> {
    static Node encode(const _Null&) { return Node(); }
    static bool decode(const Node& n, _Null&) { return n.IsNull(); }
};
template <> struct convert<bool> {
    static Node encode(bool v) { Node n; n.kls_set(model::of_bool(v)); return n; }
    static bool decode(const Node& n, bool& v)
    {
        if (!n.IsScalar()) return false;
        const model::scalar& s = n.kls_scalar();
        if (s.k == model::BOOL) { v = (bool)s.u; return true; }
        return s.k == model::TEXT && model::parse_bool(s.text, v);
    }
};
template <> struct convert<char> {
    // one character, written as such
    static Node encode(char v) { return convert<std::string>::encode(std::string(1, v)); }
    static bool decode(const Node& n, char& v)
    {
        if (!n.IsScalar() || n.Scalar().size() != 1) return false;
        v = n.Scalar()[0];
        return true;
    }
};
template <typename T> struct convert<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>::type> {
    static Node encode(T v)
    {
        if constexpr (sizeof(T) == 1) return convert<char>::encode((char)v); // a stream writes these as characters
        else { Node n; n.kls_set(model::of_int(v)); return n; }
    }
    static bool decode(const Node& n, T& v) { return n.IsScalar() && model::get_int(n.kls_scalar(), v); }
};
template <typename T> struct convert<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static Node encode(T v) { Node n; n.kls_set(model::of_real((double)v, sizeof(T) == 4)); return n; }
    static bool decode(const Node& n, T& v) { return n.IsScalar() && model::get_real(n.kls_scalar(), v); }
};
template <typename T> inline void Node::Assign(const T& v)
{
    check();
    Node o = convert<T>::encode(v);
    ensure();
    o.ensure();
    n_->r->d = o.n_->r->d;
}
inline Node Clone(const Node& n)
{
    if (!n.n_) return Node();
    Node o(n.Type());
    o.n_->d().sc = n.n_->d().sc;
    for (auto& e : n.n_->d().seq) o.n_->d().seq.push_back(Node::make(Clone(Node(e))));
    for (auto& e : n.n_->d().map) o.n_->d().map.push_back({Node::make(Clone(Node(e.first))), Node::make(Clone(Node(e.second)))});
    return o;
}
// Texts that can be loaded, and what they mean, are given by whoever uses the stand-in.
namespace model {
typedef Node (*loader)(const std::string& text);
inline loader& load_with() { static loader l; return l; }
}
inline Node Load(const std::string& t) { return model::load_with()(t); }
inline Node Load(const char* t) { return Load(std::string(t)); }

enum EMITTER_MANIP { Auto, TagByKind, Newline, EmitNonAscii, EscapeNonAscii, EscapeAsJson, SingleQuoted, DoubleQuoted, Literal, YesNoBool, TrueFalseBool, OnOffBool, UpperCase, LowerCase, CamelCase, LongBool, ShortBool, LowerNull, UpperNull, CamelNull, TildeNull, Dec, Hex, Oct, BeginDoc, EndDoc, BeginSeq, EndSeq, Flow, Block, BeginMap, EndMap, Key, Value, LongKey };
// records the document written
class Emitter {
public:
    Emitter() {}
    Emitter(const Emitter&) = delete;
    Emitter& operator=(const Emitter&) = delete;
    const char* c_str() const { text_.clear(); if (done_) render(root_); return text_.c_str(); }
    std::size_t size() const { c_str(); return text_.size(); }
    bool good() const { return ok_; }
    Node kls_root() const { return root_; }
    bool kls_complete() const { return ok_ && done_ && open_.empty(); }
    Emitter& put(const Node& n)
    {
        if (done_) { ok_ = false; return *this; }
        if (open_.empty()) { root_.reset(n); done_ = true; return *this; }
        level& l = open_.back();
        if (l.node.IsSequence()) l.node.push_back(n);
        else if (!l.have) { l.key.reset(n); l.have = true; } // keys and values alternate
        else { l.node.force_insert(l.key, n); l.have = false; }
        return *this;
    }
    Emitter& manip(EMITTER_MANIP m)
    {
        switch (m) {
        case BeginSeq: open_.push_back(level{Node(NodeType::Sequence), Node(), false}); break;
        case BeginMap: open_.push_back(level{Node(NodeType::Map), Node(), false}); break;
        case EndSeq:
        case EndMap: {
            if (open_.empty() || open_.back().have || open_.back().node.IsSequence() != (m == EndSeq)) { ok_ = false; break; }
            Node n;
            n.reset(open_.back().node);
            open_.pop_back();
            put(n);
            break;
        }
        case Key: if (open_.empty() || !open_.back().node.IsMap() || open_.back().have) ok_ = false; break;
        case Value: if (open_.empty() || !open_.back().node.IsMap() || !open_.back().have) ok_ = false; break;
        default: break;
        }
        return *this;
    }
private:
    struct level { Node node, key; bool have; };
    void render(const Node& n) const
    {
        if (n.IsScalar()) text_ += "'" + n.Scalar() + "'";
        else if (n.IsSequence()) { text_ += "["; for (const auto& e : n) { render(e); text_ += ","; } text_ += "]"; }
        else if (n.IsMap()) { text_ += "{"; for (const auto& e : n) { render(e.first); text_ += ":"; render(e.second); text_ += ","; } text_ += "}"; }
        else text_ += "~";
    }
    Node root_;
    bool done_ = false, ok_ = true;
    std::vector<level> open_;
    mutable std::string text_;
};
inline Emitter& operator<<(Emitter& e, EMITTER_MANIP m) { return e.manip(m); }
inline Emitter& operator<<(Emitter& e, const Node& n) { return e.put(n); }
inline Emitter& operator<<(Emitter& e, const _Null&) { return e.put(Node()); }
inline Emitter& operator<<(Emitter& e, const std::string& v) { return e.put(Node(v)); }
inline Emitter& operator<<(Emitter& e, std::string_view v) { return e.put(Node(std::string(v))); }
inline Emitter& operator<<(Emitter& e, const char* v) { return e.put(Node(std::string(v))); }
inline Emitter& operator<<(Emitter& e, bool v) { return e.put(Node(v)); }
inline Emitter& operator<<(Emitter& e, char v) { return e.put(Node(v)); }
inline Emitter& operator<<(Emitter& e, unsigned char v) { return e.put(Node((char)v)); }
#define KLS_YAML_EMIT(T) inline Emitter& operator<<(Emitter& e, T v) { return e.put(Node(v)); }
KLS_YAML_EMIT(short)
KLS_YAML_EMIT(unsigned short)
KLS_YAML_EMIT(int)
KLS_YAML_EMIT(unsigned)
KLS_YAML_EMIT(long)
KLS_YAML_EMIT(unsigned long)
KLS_YAML_EMIT(long long)
KLS_YAML_EMIT(unsigned long long)
KLS_YAML_EMIT(float)
KLS_YAML_EMIT(double)
#undef KLS_YAML_EMIT
} // namespace YAML
