// A stand-in for std::ostream / std::ostringstream (symbolic build only; the native replay uses the real ones).
// Text is accumulated; numbers are written in a fixed-width injective form, see kls::number().
#pragma once
#ifdef KLSYM
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_SSTREAM 1
#endif
#include <cstring>
#include <exception>
#include <memory>
#include <string>
#include <string_view>
namespace kls {
inline std::string number(unsigned long long v, bool)
{
    std::string s = "#";
    for (int i = 60; i >= 0; i -= 4) s += (char)('A' + ((v >> i) & 15));
    return s;
}
} // namespace kls
#ifdef KLSYM
namespace std {
template <> class basic_ostream<char, char_traits<char>> {
public:
    using self = basic_ostream;
    using char_type = char;
    virtual ~basic_ostream() {}
    self& put(char c) { text_ += c; return *this; }
    self& write(const char* p, long n) { text_.append(p, (size_t)n); return *this; }
    self& flush() { return *this; }
    self& operator<<(int v) { text_ += kls::number((unsigned long long)(long long)v, true); return *this; }
    self& operator<<(long v) { text_ += kls::number((unsigned long long)v, true); return *this; }
    self& operator<<(long long v) { text_ += kls::number((unsigned long long)v, true); return *this; }
    self& operator<<(unsigned v) { text_ += kls::number(v, false); return *this; }
    self& operator<<(unsigned long v) { text_ += kls::number(v, false); return *this; }
    self& operator<<(unsigned long long v) { text_ += kls::number(v, false); return *this; }
    self& operator<<(short v) { return *this << (int)v; }
    self& operator<<(unsigned short v) { return *this << (unsigned)v; }
    self& operator<<(bool v) { return *this << (int)v; }
    self& operator<<(self& (*f)(self&)) { return f(*this); }
    explicit operator bool() const { return true; }
    bool operator!() const { return false; }
    std::string text_;
};
inline ostream& operator<<(ostream& os, char c) { return os.put(c); }
inline ostream& operator<<(ostream& os, unsigned char c) { return os.put((char)c); }
inline ostream& operator<<(ostream& os, signed char c) { return os.put((char)c); }
inline ostream& operator<<(ostream& os, const char* s) { return os.write(s, (long)strlen(s)); }
inline ostream& operator<<(ostream& os, const string& s) { return os.write(s.data(), (long)s.size()); }
inline ostream& operator<<(ostream& os, string_view s) { return os.write(s.data(), (long)s.size()); }
inline ostream& endl(ostream& os) { return os.put('\n'); }
inline ostream& flush(ostream& os) { return os; }
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
public:
    basic_ostringstream() {}
    explicit basic_ostringstream(const string& s) { (void)s; }
    string str() const { return text_; }
    void str(const string& s) { text_ = s; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_ostringstream<char> {};
} // namespace std
#endif
