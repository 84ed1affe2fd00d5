// C44: the diagnostic text of an exception.
#include "ostream_model.h"
#include "kls.h"
#include "kl/exception_info.hpp"
#include <vector>
struct money { int v; };
static std::ostream& operator<<(std::ostream& os, const money& m) { return os << '$' << m.v; }
struct raw { unsigned char b[3]; }; // cannot be streamed
struct t_int { using type = int; };
struct t_str { using type = std::string; };
struct t_money { using type = money; };
struct t_raw { using type = raw; };
struct plain { int x; };              // not polymorphic
struct poly { virtual ~poly() {} };
struct base_error : std::exception {
    std::string w;
    explicit base_error(std::string s) : w(std::move(s)) {}
    const char* what() const noexcept override { return w.c_str(); }
};
struct derived_error : base_error { using base_error::base_error; };
struct own_error : base_error, kl::exception_info { // carries information by itself
    own_error(std::string s, const kl::exception_info& xi) : base_error(std::move(s)), kl::exception_info(xi) {}
};
template <typename T> static std::string name(const char* plain_name)
{
#ifdef KLSYM
    (void)plain_name;
    return typeid(T).name(); // the runtime model does not demangle
#else
    return plain_name;
#endif
}
static std::string num(int v)
{
#ifdef KLSYM
    return kls::number((unsigned long long)(long long)v, true);
#else
    return std::to_string(v);
#endif
}
static std::string hex(unsigned char c)
{
    std::string s;
    unsigned h = c >> 4, l = c & 15;
    s += (char)(h < 10 ? '0' + h : 'A' + h - 10);
    s += (char)(l < 10 ? '0' + l : 'A' + l - 10);
    return s;
}
static bool eq(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok = ok & (a[i] == b[i]);
    return ok;
}
static void describe(const kl::exception_info& xi, const std::string& info)
{
    std::string w;
    for (unsigned i = kls::choose("what", 3); i > 0; --i) {
        char c = (char)kls_sym("w", 8);
        kls_assume(c != 0);
        w += c;
    }
    const std::string pre = "dynamic exception type: ", what = "what: " + w + "\n";
    unsigned kind = kls::choose("kind", 11), how = kls::choose("how", 2);
    std::string got, want;
    try {
        switch (kind) {
        case 0: want = pre + "<unknown-exception>\n"; throw 7;
        case 1: want = pre + "<unknown-exception>\n"; throw plain{1};
        case 2: want = pre + name<derived_error>("derived_error") + "\n" + what; throw derived_error(w);
        case 3: want = pre + name<base_error>("base_error") + "\n" + what; throw base_error(w);
        case 4: want = pre + name<own_error>("own_error") + "\n" + what + info; throw own_error(w, xi);
        case 5: want = pre + name<derived_error>("derived_error") + "\n" + what + info; kl::throw_with_info(derived_error(w), xi);
        case 6: { want = pre + name<base_error>("base_error") + "\n" + what + info; base_error e(w); kl::throw_with_info(e, kl::exception_info(xi)); }
        case 7: want = pre + name<plain>("plain") + "\n" + info; kl::throw_with_info(plain{1}, xi);
        case 8: want = pre + name<poly>("poly") + "\n" + info; kl::throw_with_info(poly(), xi);
        case 9: want = "no exception"; got = kl::exception_diagnostic_info(std::exception_ptr()); break;
        default: want = pre + name<plain>("plain") + "\n"; got = kl::exception_diagnostic_info(plain{1}); break;
        }
    } catch (const base_error& e) {
        got = how ? kl::exception_diagnostic_info(e) : kl::exception_diagnostic_info(std::current_exception());
        COVER("base");
    } catch (const kl::exception_info& e) {
        got = how ? kl::exception_diagnostic_info(e) : kl::exception_diagnostic_info(std::current_exception());
        COVER("xi");
    } catch (...) {
        got = kl::exception_diagnostic_info(std::current_exception());
        COVER("other");
    }
    CHECKM(eq(got, want), "the exception's own type, its what() and the information it carries");
}
struct entry { int tag; std::string line; };
extern "C" void kls_harness()
{
    {
        static const char file[] = "f.cpp", fn[] = "fn";
        int line = kls::sym<int>("line");
        unsigned loc = kls::choose("loc", 4);
        kl::exception_info xi(loc & 1 ? file : nullptr, line, loc & 2 ? fn : nullptr);
        std::vector<entry> m; // last is newest
        unsigned thrown = kls::choose("thrown", 2);
        for (int k = 0; k < (thrown ? B_OPS - 2 : B_OPS); ++k) {
            unsigned op = kls::choose("op", 6);
            if (op == 0) {
                int v = kls::sym<int>("v");
                xi.set<t_int>(v);
                m.push_back({0, name<t_int>("t_int") + " = " + num(v) + "\n"});
            } else if (op == 1) {
                unsigned n = kls::choose("n", 3);
                std::string s;
                for (unsigned i = 0; i < n; ++i) s += (char)kls_sym("c", 8);
                xi.set<t_str>(s);
                m.push_back({1, name<t_str>("t_str") + " = " + s + "\n"});
            } else if (op == 2) {
                money v{kls::sym<int>("v")};
                xi.set<t_money>(v);
                m.push_back({2, name<t_money>("t_money") + " = $" + num(v.v) + "\n"});
            } else if (op == 3) {
                raw v;
                kls::sym_bytes(v.b, 3, "b");
                xi.set<t_raw>(v);
                m.push_back({3, name<t_raw>("t_raw") + " = [" + hex(v.b[0]) + " " + hex(v.b[1]) + " " + hex(v.b[2]) + "]\n"});
            } else if (op == 4) {
                unsigned tag = kls::choose("tag", 4);
                if (tag == 0) xi.unset<t_int>();
                else if (tag == 1) xi.unset<t_str>();
                else if (tag == 2) xi.unset<t_money>();
                else xi.unset<t_raw>();
                for (size_t i = m.size(); i-- > 0;)
                    if (m[i].tag == (int)tag) { m.erase(m.begin() + (long)i); break; }
            } // else nothing
        }
        std::string info = loc & 1 ? std::string(file) + "(" + num(line) + ")" : std::string("<unknown-file>");
        info += std::string(": throw_with_info in function ") + (loc & 2 ? fn : "<unknown-function>") + "\n";
        for (size_t i = m.size(); i-- > 0;) info += m[i].line;
        CHECKM(eq(xi.diagnostic_info(), info), "location, function and every entry, newest first");
        COVER("info");
        // the text of a caught exception
        if (thrown) describe(xi, info);
        CHECKM(eq(xi.diagnostic_info(), info), "reading and throwing leave the information as it was");
        COVER("end");
    }
    CHECKM(kls_heap_objects() == 0, "nothing leaks");
}
