// Native replay runtime: the harness is compiled with the real compiler and
// standard library; symbolic inputs are read from the recorded assignment.
#include "kls.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#else
#define HAVE_ASAN 0
#endif

namespace {
struct In { std::string name; unsigned bits; uint64_t v; };
std::vector<In>& ins() { static auto* v = new std::vector<In>; return *v; }
size_t pos = 0;
uint64_t limit = 0;
uint64_t live = 0;
char outbuf[1 << 16];
bool armed = false;
uint64_t next(const char* name, unsigned bits)
{
    auto& q = ins();
    while (pos < q.size() && q[pos].name == "sched") ++pos; // scheduling choices are not inputs here
    if (pos >= q.size()) {
        // past the recorded prefix (the violation happened earlier): any value will do
        return 0;
    }
    In& i = q[pos++];
    if (i.name != name || i.bits != bits) {
        fprintf(stderr, "REPLAY: diverged at input %zu: recorded %s/%u, harness asked %s/%u\n", pos - 1, i.name.c_str(), i.bits, name, bits);
        _exit(78);
    }
    return i.v;
}
} // namespace

extern "C" {
uint64_t kls_sym(const char* name, unsigned bits) { return next(name, bits); }
void kls_assume(int c)
{
    if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); _exit(77); }
}
void kls_assert(int c, const char* m)
{
    if (!c) {
        fprintf(stderr, "REPLAY: property violated: %s\n", m);
        fflush(stderr);
        _exit(97);
    }
}
void kls_cover(const char* n) { printf("COVER %s\n", n); fflush(stdout); }
uint64_t kls_concretize(uint64_t v) { return v; }
uint64_t kls_heap_objects(void)
{
    return live;
}
void kls_alloc_limit(uint64_t n) { limit = n; }
#if HAVE_ASAN
void __sanitizer_malloc_hook(const volatile void*, size_t n)
{
    ++live;
    if (limit && n > limit) {
        limit = 0;
        fprintf(stderr, "REPLAY: allocation of %zu bytes exceeds the limit set by the harness\n", n);
        _exit(97);
    }
}
void __sanitizer_free_hook(const volatile void* p) { if (p) --live; }
#endif
void kls_oom(uint64_t) {}
int kls_is_symbolic(void) { return 0; }
void kls_trace(const char* n, uint64_t v) { printf("TRACE %s %llu\n", n, (unsigned long long)v); }
int kls_valid(const void*, uint64_t) { return 1; }
#ifndef KLS_THREADS
void kls_preemptions(uint64_t) {}
int kls_thread(void (*fn)(void*), void* arg) { fn(arg); return 1; }
void kls_join(int) {}
void kls_yield(void) {}
int kls_tid(void) { return 0; }
uint64_t kls_now(void) { static uint64_t n = 0; return ++n; }
#endif
uint64_t kls_held_mutexes(void) { return 0; }
}

int main(int argc, char** argv)
{
    if (argc > 1) {
        std::ifstream f(argv[1]);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            In i;
            if (is >> i.name >> i.bits >> i.v) ins().push_back(i);
        }
    }
    ins().shrink_to_fit();
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    try { throw 1; } catch (int) {} // the runtime allocates on first use
    live = 0;
    alarm(60);
    kls_harness();
    printf("REPLAY: completed\n");
    fflush(stdout);
    _exit(0);
}
