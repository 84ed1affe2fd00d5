// Harness interface.  Under klsym these are engine built-ins; in a native
// replay build they are provided by rt/replay.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
// what the repository's own test files happen to have included by the time they reach a kl header
#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#endif
extern "C" {
uint64_t kls_sym(const char* name, unsigned bits);
void kls_assume(int cond);
void kls_assert(int cond, const char* msg);
void kls_cover(const char* name);
uint64_t kls_concretize(uint64_t v);
uint64_t kls_heap_objects(void);
void kls_alloc_limit(uint64_t bytes);
void kls_oom(uint64_t n);
int kls_is_symbolic(void);
void kls_trace(const char* name, uint64_t v);
int kls_valid(const void* p, uint64_t n);
void kls_preemptions(uint64_t n);
int kls_thread(void (*fn)(void*), void* arg);
void kls_join(int tid);
void kls_yield(void);
int kls_tid(void);
uint64_t kls_now(void); // logical time of the execution; calling it is not a scheduling point
uint64_t kls_held_mutexes(void);
void kls_harness(void);
}
#ifdef __cplusplus
namespace kls {
template <typename T> inline T sym(const char* n)
{
    return static_cast<T>(kls_sym(n, sizeof(T) * 8));
}
inline bool sym_bool(const char* n) { return (bool)kls_sym(n, 1); }
inline void sym_bytes(void* p, size_t n, const char* name)
{
    unsigned char* c = (unsigned char*)p;
    for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)kls_sym(name, 8);
}
// value in [0, n): every value is explored as its own set of paths
inline unsigned choose(const char* name, unsigned n)
{
    if (n <= 1) return 0;
    uint64_t v = kls_sym(name, 8);
    kls_assume(v < n);
    return (unsigned)kls_concretize(v);
}
// value in [lo, hi], kept symbolic
inline uint64_t range(const char* name, uint64_t lo, uint64_t hi)
{
    uint64_t v = kls_sym(name, 64);
    kls_assume(v >= lo && v <= hi);
    return v;
}
inline void check(bool c, const char* m) { kls_assert(c, m); }
} // namespace kls
#endif
#define CHECK(c) kls_assert(!!(c), #c)
#define CHECKM(c, m) kls_assert(!!(c), m)
#define COVER(n) kls_cover(n)
