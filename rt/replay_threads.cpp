// Native replay of multi-threaded harnesses.  The harness is compiled with
// clang -fsanitize=thread, whose instrumentation calls land here instead of in
// the ThreadSanitizer runtime: real threads run one at a time under the
// recorded schedule, switching only before synchronisation operations, while
// happens-before races and uses of freed memory are detected.
#include "kls.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace {
template <typename T> struct Raw { // keeps the runtime's own memory out of the accounting
    using value_type = T;
    Raw() = default;
    template <typename U> Raw(const Raw<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template <typename U> bool operator==(const Raw<U>&) const { return true; }
    template <typename U> bool operator!=(const Raw<U>&) const { return false; }
};
template <typename T> using vec = std::vector<T, Raw<T>>;
struct In { char name[48]; unsigned bits; uint64_t v; };
using VC = vec<uint32_t>;
struct Th {
    sem_t sem;
    pthread_t p;
    bool done = false;
    uintptr_t pendingLock = 0;
    int joinOn = -1;
    VC vc;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
};
struct Acc { uint64_t lo, hi; int tid; uint32_t clk; bool wr, atomic; };
struct Blk { size_t n; bool freed; };
template <typename K, typename V> using hmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;
struct G {
    vec<In> in;
    size_t pos = 0;
    vec<Th*> th;
    unsigned preempt = 0, maxPreempt = 0;
    hmap<uintptr_t, int> mown;
    hmap<uintptr_t, VC> mvc;
    hmap<uintptr_t, vec<Acc>> sh; // by 8-byte granule
    std::map<uintptr_t, Blk, std::less<uintptr_t>, Raw<std::pair<const uintptr_t, Blk>>> blk;
    uint64_t live = 0, now = 0;
    bool on = false;
};
G& g()
{
    static G* p = nullptr;
    if (!p) p = new (malloc(sizeof(G))) G;
    return *p;
}
thread_local int self = 0;
char outbuf[1 << 16];

[[noreturn]] void fail(int rc, const char* m, const char* x = "")
{
    fprintf(stderr, "REPLAY: %s%s\n", m, x);
    fflush(stderr);
    fflush(stdout);
    _exit(rc);
}
uint64_t next(const char* name, unsigned bits, bool& past)
{
    G& G_ = g();
    past = G_.pos >= G_.in.size();
    if (past) return 0;
    In& i = G_.in[G_.pos++];
    if (strcmp(i.name, name) || i.bits != bits) {
        fprintf(stderr, "recorded %s/%u, harness asked %s/%u: ", i.name, i.bits, name, bits);
        fail(78, "diverged");
    }
    return i.v;
}
void acquire(uintptr_t a)
{
    auto it = g().mvc.find(a);
    if (it == g().mvc.end()) return;
    VC& v = g().th[self]->vc;
    if (v.size() < it->second.size()) v.resize(it->second.size(), 0);
    for (size_t i = 0; i < it->second.size(); ++i) v[i] = std::max(v[i], it->second[i]);
}
void releaseVC(uintptr_t a, bool rmw)
{
    VC& v = g().th[self]->vc;
    VC& m = g().mvc[a];
    if (rmw) {
        if (m.size() < v.size()) m.resize(v.size(), 0);
        for (size_t i = 0; i < v.size(); ++i) m[i] = std::max(m[i], v[i]);
    } else m = v;
    v[self]++;
}
void valid(uintptr_t a, size_t n, const char* what)
{
    auto it = g().blk.upper_bound(a);
    if (it == g().blk.begin()) return;
    --it;
    if (a >= it->first + std::max<size_t>(it->second.n, 1)) return;
    if (it->second.freed) fail(98, "use of freed memory: ", what);
    if (a + n > it->first + it->second.n) fail(98, "access beyond a heap block: ", what);
}
void touch(uintptr_t a, size_t n, bool wr, bool atomic)
{
    if (!g().on) return;
    if (g().th.size() < 2) { return; }
    VC& vc = g().th[self]->vc;
    for (uintptr_t q = a >> 3; q <= (a + n - 1) >> 3; ++q) {
        auto& v = g().sh[q];
        uint64_t lo = std::max<uintptr_t>(a, q << 3), hi = std::min<uintptr_t>(a + n, (q + 1) << 3);
        for (size_t i = 0; i < v.size();) {
            Acc& c = v[i];
            if (c.tid != self) {
                if (c.lo < hi && lo < c.hi && (wr || c.wr) && !(atomic && c.atomic)) {
                    uint32_t seen = (size_t)c.tid < vc.size() ? vc[c.tid] : 0;
                    if (c.clk > seen) fail(97, "data race");
                }
                ++i;
            } else if (c.lo >= lo && c.hi <= hi && (wr || !c.wr) && c.atomic == atomic) { v[i] = v.back(); v.pop_back(); }
            else ++i;
        }
        v.push_back({lo, hi, self, vc[self], wr, atomic});
    }
}
void access(void* p, size_t n, bool wr, bool atomic)
{
    if (!g().on || !n) return;
    valid((uintptr_t)p, n, wr ? "write" : "read");
    touch((uintptr_t)p, n, wr, atomic);
}
// mirrors the symbolic executor's scheduler
void schedule(uintptr_t lock, int join)
{
    G& G_ = g();
    if (!G_.on) return;
    if (G_.th.size() < 2) {
        auto it = G_.mown.find(lock);
        if (lock && it != G_.mown.end() && it->second) fail(97, "deadlock: mutex locked again by the thread that owns it");
        return;
    }
    Th& me = *G_.th[self];
    me.pendingLock = lock;
    me.joinOn = join;
    auto enabled = [&](int i) {
        Th& t = *G_.th[i];
        if (t.done) return false;
        if (t.pendingLock) { auto it = G_.mown.find(t.pendingLock); if (it != G_.mown.end() && it->second) return false; }
        if (t.joinOn >= 0 && !G_.th[t.joinOn]->done) return false;
        return true;
    };
    bool meOk = !me.done && enabled(self);
    vec<int> ch;
    if (meOk) ch.push_back(self);
    if (!meOk || G_.preempt < G_.maxPreempt)
        for (int i = 0; i < (int)G_.th.size(); ++i) if (i != self && enabled(i)) ch.push_back(i);
    if (ch.empty()) fail(97, "deadlock: no thread can make progress");
    int k = ch[0];
    if (ch.size() > 1) {
        bool past;
        k = (int)next("sched", 8, past);
        if (past) k = ch[0];
        bool ok = false;
        for (int c : ch) ok |= c == k;
        if (!ok) fail(78, "diverged: the recorded schedule picks a thread that cannot run");
        if (k != self && meOk) G_.preempt++;
    }
    if (k == self) return;
    bool done = me.done;
    sem_post(&G_.th[k]->sem);
    if (done) return;
    while (sem_wait(&me.sem)) {}
}
void* body(void* p)
{
    self = (int)(intptr_t)p;
    Th& t = *g().th[self];
    while (sem_wait(&t.sem)) {}
    t.fn(t.arg);
    t.done = true;
    schedule(0, -1);
    return nullptr;
}
bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o >= __ATOMIC_ACQ_REL; }
bool rel(int o) { return o >= __ATOMIC_RELEASE; }
template <typename T> T a_load(volatile T* p, int mo)
{
    schedule(0, -1);
    if (g().on && acq(mo)) acquire((uintptr_t)p);
    access((void*)p, sizeof(T), false, true);
    return *p;
}
template <typename T> void a_store(volatile T* p, T v, int mo)
{
    schedule(0, -1);
    access((void*)p, sizeof(T), true, true);
    if (g().on && g().th.size() > 1) { if (rel(mo)) releaseVC((uintptr_t)p, false); else g().mvc.erase((uintptr_t)p); }
    *p = v;
}
template <typename T, typename F> T a_rmw(volatile T* p, int mo, F f)
{
    schedule(0, -1);
    access((void*)p, sizeof(T), true, true);
    if (g().on && g().th.size() > 1) { if (acq(mo)) acquire((uintptr_t)p); if (rel(mo)) releaseVC((uintptr_t)p, true); }
    T old = *p;
    *p = f(old);
    return old;
}
template <typename T> int a_cas(volatile T* p, T* e, T d, int mo, int fmo)
{
    schedule(0, -1);
    access((void*)p, sizeof(T), true, true);
    bool eq = *p == *e;
    if (g().on && g().th.size() > 1) { if (acq(eq ? mo : fmo)) acquire((uintptr_t)p); if (eq && rel(mo)) releaseVC((uintptr_t)p, true); }
    if (eq) *p = d;
    else *e = *p;
    return eq;
}
void* alloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (g().on) { g().blk[(uintptr_t)p] = Blk{n, false}; g().live++; }
    return p;
}
void dealloc(void* p)
{
    if (!p) return;
    auto it = g().blk.find((uintptr_t)p);
    if (it == g().blk.end()) { if (!g().on) free(p); else fail(98, "free of a pointer that was not allocated"); return; }
    if (it->second.freed) fail(98, "memory freed twice");
    if (it->second.n) touch((uintptr_t)p, it->second.n, true, false);
    it->second.freed = true; // the memory is kept so that later uses are seen
    g().live--;
}
} // namespace

void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p); }

extern "C" {
uint64_t kls_sym(const char* name, unsigned bits) { bool past; return next(name, bits, past); }
void kls_assume(int c) { if (!c) fail(77, "assumption not met"); }
void kls_assert(int c, const char* m) { if (!c) fail(97, "property violated: ", m); }
void kls_cover(const char* n) { printf("COVER %s\n", n); fflush(stdout); }
uint64_t kls_concretize(uint64_t v) { return v; }
uint64_t kls_heap_objects(void) { return g().live; }
void kls_alloc_limit(uint64_t) {}
void kls_oom(uint64_t) {}
int kls_is_symbolic(void) { return 0; }
void kls_trace(const char* n, uint64_t v) { printf("TRACE %s %llu\n", n, (unsigned long long)v); }
int kls_valid(const void*, uint64_t) { return 1; }
void kls_preemptions(uint64_t n) { g().maxPreempt = (unsigned)n; }
int kls_tid(void) { return self; }
uint64_t kls_now(void) { return ++g().now; }
int kls_thread(void (*fn)(void*), void* arg)
{
    G& G_ = g();
    int id = (int)G_.th.size();
    if (id == 1) G_.th[0]->vc.assign(1, 1);
    Th* t = new (malloc(sizeof(Th))) Th;
    t->vc = G_.th[self]->vc;
    t->vc.resize(id + 1, 0);
    t->vc[id] = 1;
    G_.th[self]->vc[self]++;
    t->fn = fn;
    t->arg = arg;
    sem_init(&t->sem, 0, 0);
    G_.th.push_back(t);
    for (auto* x : G_.th) x->vc.resize(id + 1, 0);
    if (pthread_create(&t->p, nullptr, body, (void*)(intptr_t)id)) fail(79, "cannot create a thread");
    return id;
}
void kls_join(int id)
{
    Th& w = *g().th[id];
    if (!w.done) schedule(0, id);
    VC& v = g().th[self]->vc;
    for (size_t i = 0; i < w.vc.size(); ++i) v[i] = std::max(v[i], w.vc[i]);
}
void kls_yield(void) { schedule(0, -1); }
uint64_t kls_held_mutexes(void) { uint64_t n = 0; for (auto& m : g().mown) n += m.second != 0; return n; }

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g().on) return 0;
    uintptr_t a = (uintptr_t)m;
    valid(a, 8, "mutex lock");
    schedule(a, -1);
    if (g().th.size() > 1) acquire(a);
    g().mown[a] = self + 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g().on) return 0;
    uintptr_t a = (uintptr_t)m;
    valid(a, 8, "mutex trylock");
    schedule(0, -1);
    if (g().mown[a]) return 16;
    if (g().th.size() > 1) acquire(a);
    g().mown[a] = self + 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g().on) return 0;
    uintptr_t a = (uintptr_t)m;
    valid(a, 8, "mutex unlock");
    if (g().mown[a] != self + 1) fail(97, "mutex unlocked by a thread that does not own it");
    schedule(0, -1);
    g().mown.erase(a);
    if (g().th.size() > 1) releaseVC(a, false);
    return 0;
}

void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false); }
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, false); } \
    void __tsan_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int mo) { return a_load((volatile T*)p, mo); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int mo) { a_store(p, v, mo); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T) { return v; }); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw(p, mo, [&](T o) { return (T)(o ^ v); }); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f) { return a_cas(p, e, d, mo, f); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f) { return a_cas(p, e, d, mo, f); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f) { a_cas(p, &e, d, mo, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

int main(int argc, char** argv)
{
    if (argc > 1)
        if (FILE* f = fopen(argv[1], "r")) {
            In i;
            unsigned long long v;
            while (fscanf(f, "%47s %u %llu", i.name, &i.bits, &v) == 3) { i.v = v; g().in.push_back(i); }
            fclose(f);
        }
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    try { throw 1; } catch (int) {}
    Th* t = new (malloc(sizeof(Th))) Th;
    t->vc.assign(1, 1);
    sem_init(&t->sem, 0, 0);
    g().th.push_back(t);
    alarm(60);
    g().on = true;
    kls_harness();
    printf("REPLAY: completed\n");
    fflush(stdout);
    _exit(0);
}
