// Runtime model linked into every symbolic module: the C++ ABI exception
// functions, the out-of-line parts of libstdc++ the repository's code reaches,
// and a few libc functions.  Everything here is executed symbolically.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <optional>
#include <variant>
#include <functional>
#include <any>
#include <system_error>
#include <list>
#include <map>
#include <unordered_map>
#include <mutex>
#include <memory>

extern "C" {
void* kls_exc_alloc(size_t);
void kls_exc_free(void*);
[[noreturn]] void kls_unwind(void*);
uint64_t kls_caught_get();
void kls_caught_set(uint64_t);
char __libc_single_threaded = 0;
static int kls_errno;
int* __errno_location() { return &kls_errno; }
void* __dso_handle = nullptr;

// ------------------------------------------------------------- libc
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) ++n;
    return n;
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) ++a, ++b;
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; --n, ++a, ++b) {
        if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
        if (!*a) break;
    }
    return 0;
}
void* kls_memchr(const void* p, int c, size_t n) asm("memchr");
void* kls_memchr(const void* p, int c, size_t n)
{
    const unsigned char* s = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        if (s[i] == (unsigned char)c) return (void*)(s + i);
    return nullptr;
}
char* kls_strchr(const char* s, int c) asm("strchr");
char* kls_strchr(const char* s, int c)
{
    for (;; ++s) {
        if (*s == (char)c) return (char*)s;
        if (!*s) return nullptr;
    }
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

// ------------------------------------------------------------- exceptions
struct Hdr {
    const std::type_info* type; // exc-64
    void (*dtor)(void*);        // exc-56
    int64_t handlers;           // exc-48
    int64_t refs;               // exc-40
    void* adjusted;             // exc-32
    Hdr* next;                  // exc-24
    int64_t rethrown;           // exc-16
    int64_t pad;
};
static_assert(sizeof(Hdr) == 64, "");
static Hdr* hdr(void* e) { return (Hdr*)((char*)e - 64); }
static void* obj(Hdr* h) { return (char*)h + 64; }

int64_t kls_uncaught = 0;

void* __cxa_allocate_exception(size_t n) { return (char*)kls_exc_alloc(n + 64) + 64; }
void __cxa_free_exception(void* e) { kls_exc_free((char*)e - 64); }
static void decref(Hdr* h)
{
    if (--h->refs == 0) {
        if (h->dtor) h->dtor(obj(h));
        __cxa_free_exception(obj(h));
    }
}
void __cxa_throw(void* e, void* ti, void (*dtor)(void*))
{
    Hdr* h = hdr(e);
    h->type = (const std::type_info*)ti;
    h->dtor = dtor;
    h->handlers = 0;
    h->refs = 1;
    ++kls_uncaught;
    kls_unwind(e);
}
void* __cxa_begin_catch(void* e)
{
    Hdr* h = hdr(e);
    --kls_uncaught;
    if (h->handlers < 0) h->handlers = -h->handlers + 1;
    else h->handlers++;
    h->rethrown = 0;
    Hdr* top = (Hdr*)kls_caught_get();
    if (top != h) {
        h->next = top;
        kls_caught_set((uint64_t)h);
    }
    return h->adjusted;
}
void __cxa_end_catch()
{
    Hdr* h = (Hdr*)kls_caught_get();
    if (!h) return;
    if (h->handlers < 0) {
        // being rethrown
        if (++h->handlers == 0) kls_caught_set((uint64_t)h->next);
        return;
    }
    if (--h->handlers == 0) {
        kls_caught_set((uint64_t)h->next);
        decref(h);
    }
}
void __cxa_rethrow()
{
    Hdr* h = (Hdr*)kls_caught_get();
    if (!h) std::terminate();
    h->handlers = -h->handlers;
    ++kls_uncaught;
    kls_unwind(obj(h));
}
void* __cxa_get_exception_ptr(void* e) { return hdr(e)->adjusted; }
std::type_info* __cxa_current_exception_type()
{
    Hdr* h = (Hdr*)kls_caught_get();
    return h ? const_cast<std::type_info*>(h->type) : nullptr;
}
void kls_throw_bad_alloc() { throw std::bad_alloc(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char*) {}
int __gxx_personality_v0() { return 0; }
// type names appear in messages only, whose wording is never part of a claim
char* __cxa_demangle(const char* name, char*, size_t*, int* st)
{
    if (st) *st = 0;
    size_t n = strlen(name) + 1;
    char* r = (char*)malloc(n);
    memcpy(r, name, n);
    return r;
}

// ------------------------------------------------------------- RTTI
void* kls_vt_class[8] asm("_ZTVN10__cxxabiv117__class_type_infoE") = {};
void* kls_vt_si[8] asm("_ZTVN10__cxxabiv120__si_class_type_infoE") = {};
void* kls_vt_vmi[8] asm("_ZTVN10__cxxabiv121__vmi_class_type_infoE") = {};
void* kls_vt_ptr[8] asm("_ZTVN10__cxxabiv119__pointer_type_infoE") = {};
void* kls_vt_fund[8] asm("_ZTVN10__cxxabiv123__fundamental_type_infoE") = {};
void* kls_vt_enum[8] asm("_ZTVN10__cxxabiv116__enum_type_infoE") = {};
void* kls_vt_fn[8] asm("_ZTVN10__cxxabiv120__function_type_infoE") = {};
void* kls_vt_arr[8] asm("_ZTVN10__cxxabiv117__array_type_infoE") = {};

struct TI { void* vt; const char* name; };
struct TISi { TI b; const TI* base; };
struct TIVmi { TI b; uint32_t flags, count; struct { const TI* base; int64_t of; } bases[1]; };

// search the whole object for public subobjects of type dst
static void rttiFind(const TI* t, char* o, const TI* dst, bool pub, void** found, int* n)
{
    if (t == dst) {
        if (pub && *found != o) { *found = o; ++*n; }
        return;
    }
    if (t->vt == kls_vt_si + 2) rttiFind(((const TISi*)t)->base, o, dst, pub, found, n);
    else if (t->vt == kls_vt_vmi + 2) {
        const TIVmi* v = (const TIVmi*)t;
        for (uint32_t i = 0; i < v->count; ++i) {
            int64_t of = v->bases[i].of, off = of >> 8;
            if (of & 1) off = *(int64_t*)(*(char**)o + off);
            rttiFind(v->bases[i].base, o + off, dst, pub && (of & 2), found, n);
        }
    }
}
void* __dynamic_cast(const void* src, const void*, const void* dst, ptrdiff_t)
{
    char* vptr = *(char**)src;
    int64_t top = *(int64_t*)(vptr - 16);
    const TI* dyn = *(const TI**)(vptr - 8);
    char* whole = (char*)src + top;
    void* found = nullptr;
    int n = 0;
    rttiFind(dyn, whole, (const TI*)dst, true, &found, &n);
    return n == 1 ? found : nullptr;
}
} // extern "C"

std::type_info::~type_info() {}
bool std::type_info::__is_pointer_p() const { return false; }
bool std::type_info::__is_function_p() const { return false; }
bool std::type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool std::type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// ------------------------------------------------------------- <exception>
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
int uncaught_exceptions() noexcept { return (int)kls_uncaught; }
bool uncaught_exception() noexcept { return kls_uncaught != 0; }

// reference counted message, as in libstdc++
struct KMsg { int64_t rc; char s[1]; };
static const char* kmk(const char* s, size_t n)
{
    KMsg* m = (KMsg*)::operator new(sizeof(int64_t) + n + 1);
    m->rc = 1;
    ::memcpy(m->s, s, n);
    m->s[n] = 0;
    return m->s;
}
static KMsg* kof(const char* p) { return (KMsg*)(p - sizeof(int64_t)); }
static void kdrop(const char* p) { if (--kof(p)->rc == 0) ::operator delete(kof(p)); }
__cow_string::__cow_string() : _M_p(kmk("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(kmk(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(kmk(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { kof(_M_p)->rc++; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    kof(o._M_p)->rc++;
    kdrop(_M_p);
    _M_p = o._M_p;
    return *this;
}
__cow_string::~__cow_string() { kdrop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { kof(_M_p)->rc++; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept
{
    const char* t = _M_p;
    _M_p = o._M_p;
    o._M_p = t;
    return *this;
}

#define KEXC(T, B)                                          \
    T::T(const std::string& s) : B(s) {}                    \
    T::T(const char* s) : B(s) {}                           \
    T::~T() noexcept {}
logic_error::logic_error(const std::string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, ::strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, ::strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
KEXC(domain_error, logic_error)
KEXC(invalid_argument, logic_error)
KEXC(length_error, logic_error)
KEXC(out_of_range, logic_error)
KEXC(range_error, runtime_error)
KEXC(overflow_error, runtime_error)
KEXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
// error categories: messages are a fixed text (their wording is never part of a claim)
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
}
namespace {
struct kcat : error_category {
    const char* n;
    constexpr explicit kcat(const char* x) : n(x) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return "error"; }
};
}
inline namespace _V2 {
const error_category& generic_category() noexcept { static kcat c("generic"); return c; }
const error_category& system_category() noexcept { static kcat c("system"); return c; }
}
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

// ------------------------------------------------------------- trees and lists
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }

static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base* const y = g->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rotR(g, root);
            }
        } else {
            _Rb_tree_node_base* const y = g->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                g->_M_color = _S_red;
                x = g;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
                x->_M_parent->_M_color = _S_black;
                g->_M_color = _S_red;
                rotL(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base*& lm = h._M_left;
    _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (lm == z) {
            if (!z->_M_right) lm = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; lm = m; }
        }
        if (rm == z) {
            if (!z->_M_left) rm = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rm = m; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotL(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotR(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
static const size_t kprimes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    for (size_t p : kprimes)
        if (p >= n) {
            _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor);
            return p;
        }
    return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        double mb = (double)((_M_next_resize ? ne : (ne + ni > 11 ? ne : 11 - ni)) + ni) / (double)_M_max_load_factor;
        size_t need = (size_t)mb + 1;
        if (ne + ni > 11) need = (ne + ni) + 1;
        if (need >= nb) {
            size_t a = need, b = nb * 2;
            return {true, _M_next_bkt(a > b ? a : b)};
        }
        _M_next_resize = (size_t)((double)nb * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    // FNV-1a; only container bucketing depends on it
    size_t h = 14695981039346656037ull ^ seed;
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
} // namespace std

// std::exception_ptr
namespace std {
namespace __exception_ptr {
exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object(e) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept
{
    if (_M_exception_object) { decref(hdr(_M_exception_object)); _M_exception_object = nullptr; }
}
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdr(_M_exception_object)->type; }
} // namespace __exception_ptr
exception_ptr current_exception() noexcept
{
    Hdr* h = (Hdr*)kls_caught_get();
    return h ? exception_ptr(obj(h)) : exception_ptr();
}
void rethrow_exception(exception_ptr p)
{
    // modelled as re-throwing the same object
    void* e = *(void**)&p;
    // (while the same object is being handled, that handler keeps it alive and begin/end_catch nest)
    if (!(hdr(e)->handlers > 0 && (Hdr*)kls_caught_get() == hdr(e))) hdr(e)->refs++;
    ++kls_uncaught;
    kls_unwind(e);
}
} // namespace std
