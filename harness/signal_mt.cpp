// C24: signals used from several threads at once.  Two threads (B_THREADS) each perform B_OPS operations on one signal that starts with 0..B_SLOTS
// slots; every interleaving at synchronisation operations with at most B_PRE preemptions is explored.
#include "kls.h"
#include "kl/signal.hpp"
#ifndef B_THREADS
#define B_THREADS 2
#endif
namespace {
constexpr int MAXID = B_SLOTS + B_THREADS * B_OPS;
enum { OP_EMIT, OP_BACK, OP_FRONT, OP_DISC, OP_ALL, OP_BLOCK, OP_COUNT, OP_STATE };
struct Ev { int kind; int id; int em; uint64_t t; }; // CALL / END / DESTROY
enum { CALL, END, DESTROY };
struct Op { int kind = -1, id = -1; uint64_t b = 0, e = 0; uint64_t res = 0; };
struct Log {
    Ev ev[40];
    int n = 0;
    Op op[B_OPS + 1];
    int nop = 0;
    void add(int k, int id, int em)
    {
        if (n == 40) { CHECKM(false, "more slot calls than slots and emissions allow"); return; }
        ev[n++] = {k, id, em, kls_now()};
    }
};
Log lg[B_THREADS + 1];
int act[MAXID + 1]; // what slot id does when called: 0 nothing, 1 stop the emission, 2 disconnect itself
int live[MAXID + 1];
uint32_t payload;
struct Fn {
    int id;
    explicit Fn(int i) : id(i) { ++live[id]; }
    Fn(const Fn& o) : id(o.id) { if (id >= 0) ++live[id]; }
    Fn(Fn&& o) noexcept : id(o.id) { o.id = -1; }
    ~Fn() { if (id >= 0 && --live[id] == 0) lg[kls_tid()].add(DESTROY, id, 0); }
    void operator()(int em, uint32_t v)
    {
        CHECKM(v == payload + (uint32_t)em, "a slot receives the emitted arguments");
        Log& l = lg[kls_tid()];
        l.add(CALL, id, em);
        if (act[id] == 1) kl::this_signal::stop_emission();
        else if (act[id] == 2) kl::this_signal::current_connection().disconnect();
        else kls_yield(); // the slot's own work: other threads may run meanwhile
        l.add(END, id, em);
    }
};
struct Sig { kl::signal<void(int, uint32_t)> s; };
Sig* sg;
struct Per {
    kl::connection con[B_SLOTS + 1];
    int op[B_OPS], arg[B_OPS], tid;
};
Per per[B_THREADS + 1];
int n0;

void worker(void* p)
{
    Per& me = *(Per*)p;
    int t = me.tid;
    Log& l = lg[t];
    for (int k = 0; k < B_OPS; ++k) {
        Op& o = l.op[l.nop++];
        o.kind = me.op[k];
        int fresh = B_SLOTS + (t - 1) * B_OPS + k;
        switch (o.kind) {
        case OP_EMIT:
            o.id = t * 10 + k;
            o.b = kls_now();
            sg->s(o.id, payload + (uint32_t)o.id);
            o.e = kls_now();
            break;
        case OP_BACK:
        case OP_FRONT: {
            o.id = fresh;
            o.b = kls_now();
            kl::connection c = sg->s.connect(Fn(fresh), o.kind == OP_BACK ? kl::at_back : kl::at_front);
            o.e = kls_now();
            break;
        }
        case OP_DISC:
            o.id = me.arg[k];
            o.b = kls_now();
            me.con[o.id].disconnect();
            o.e = kls_now();
            break;
        case OP_ALL:
            o.b = kls_now();
            sg->s.disconnect_all_slots();
            o.e = kls_now();
            break;
        case OP_BLOCK: {
            o.id = me.arg[k];
            o.b = kls_now();
            kl::connection::blocker b = me.con[o.id].get_blocker();
            o.res = kls_now();
            kls_yield();
            o.e = kls_now(); // the blocker goes after this
            break;
        }
        case OP_COUNT:
            o.b = kls_now();
            o.res = sg->s.num_slots();
            o.e = kls_now();
            break;
        case OP_STATE:
            o.id = me.arg[k];
            o.b = kls_now();
            o.res = me.con[o.id].connected();
            o.e = kls_now();
            break;
        }
    }
    for (auto& c : me.con) c = kl::connection{};
}

// what the logs say about a slot
struct S {
    bool exists = false, disc = false; // disc: some disconnect of it was asked for
    uint64_t cb = 0, ce = 0;           // its connecting
    uint64_t db = UINT64_MAX, de = UINT64_MAX; // first beginning and first completion of a disconnect that certainly covers it
    uint64_t mb = UINT64_MAX;                  // first beginning of a disconnect that may cover it
    bool front = false;
};
S sl[MAXID + 1];

// must slot a be called before slot b when both are called?  2 = unknown
int before(int a, int b)
{
    auto cls = [](int i) { return i < B_SLOTS ? 1 : sl[i].front ? 0 : 2; };
    int x = cls(a), y = cls(b);
    if (x != y) return x < y;
    if (x == 1) return a < b;
    if (sl[a].ce < sl[b].cb) return x == 2;
    if (sl[b].ce < sl[a].cb) return x == 0;
    return 2;
}
} // namespace

extern "C" void kls_harness(void)
{
    uint64_t base = kls_heap_objects();
    kls_preemptions(0);
    {
        Sig sig;
        sg = &sig;
        payload = kls::sym<uint32_t>("payload");
        n0 = (int)kls::choose("slots", B_SLOTS + 1);
        for (int i = 0; i < n0; ++i) {
            act[i] = (int)kls::choose("act", B_ACTS);
            kl::connection c = sig.s.connect(Fn(i));
            for (int t = 1; t <= B_THREADS; ++t) per[t].con[i] = c;
            sl[i].exists = true;
        }
        int prev = 0;
        for (int t = 1; t <= B_THREADS; ++t) {
            per[t].tid = t;
            int code = 0;
            for (int k = 0; k < B_OPS; ++k) {
                int o = (int)kls::choose("op", OP_STATE + 1);
                per[t].op[k] = o;
                per[t].arg[k] = 0;
                if (o == OP_DISC || o == OP_BLOCK || o == OP_STATE) {
                    kls_assume(n0 > 0);
                    per[t].arg[k] = (int)kls::choose("arg", (unsigned)n0);
                }
                code = code * 100 + o * 10 + per[t].arg[k];
            }
            kls_assume(code >= prev); // the threads are alike
            prev = code;
        }
        kls_preemptions(B_PRE);
        for (int t = 1; t <= B_THREADS; ++t) kls_thread(worker, &per[t]);
        for (int t = 1; t <= B_THREADS; ++t) kls_join(t);
        kls_preemptions(0);
        CHECKM(kls_held_mutexes() == 0, "no lock is left held");

        // gather: connects, then what disconnects what
        for (int t = 1; t <= B_THREADS; ++t)
            for (int k = 0; k < lg[t].nop; ++k) {
                Op& o = lg[t].op[k];
                if (o.kind == OP_BACK || o.kind == OP_FRONT) {
                    S& s = sl[o.id];
                    s.exists = true;
                    s.cb = o.b;
                    s.ce = o.e;
                    s.front = o.kind == OP_FRONT;
                }
            }
        bool emitted = false;
        for (int t = 1; t <= B_THREADS; ++t)
            for (int k = 0; k < lg[t].nop; ++k) {
                Op& o = lg[t].op[k];
                emitted |= o.kind == OP_EMIT;
                for (int i = 0; i < MAXID; ++i) {
                    S& s = sl[i];
                    if (!s.exists) continue;
                    bool sure = (o.kind == OP_DISC && o.id == i) || (o.kind == OP_ALL && s.ce < o.b);
                    bool may = sure || (o.kind == OP_ALL && s.cb < o.e);
                    if (sure) {
                        if (o.b < s.db) s.db = o.b;
                        if (o.e < s.de) s.de = o.e;
                    }
                    if (may && o.b < s.mb) s.mb = o.b;
                    s.disc |= may;
                }
            }
        // self-disconnecting slots
        for (int t = 1; t <= B_THREADS; ++t)
            for (int j = 0; j < lg[t].n; ++j) {
                Ev& e = lg[t].ev[j];
                if (e.kind == CALL && act[e.id] == 2) {
                    S& s = sl[e.id];
                    if (e.t < s.db) s.db = e.t;
                    if (e.t < s.mb) s.mb = e.t;
                    s.disc = true;
                }
                if (e.kind == END && act[e.id] == 2 && e.t < sl[e.id].de) sl[e.id].de = e.t;
            }

        // every emission
        for (int t = 1; t <= B_THREADS; ++t)
            for (int k = 0; k < lg[t].nop; ++k) {
                Op& o = lg[t].op[k];
                if (o.kind == OP_COUNT) {
                    uint64_t lo = 0, hi = 0;
                    for (int i = 0; i < MAXID; ++i) {
                        S& s = sl[i];
                        if (!s.exists) continue;
                        if (s.ce < o.b && s.mb > o.e) ++lo;
                        if (s.cb < o.e && !(s.de < o.b)) ++hi;
                    }
                    CHECKM(o.res >= lo && o.res <= hi, "the slot count is one the signal had while it was asked");
                }
                if (o.kind == OP_STATE) {
                    S& s = sl[o.id];
                    if (s.mb > o.e) CHECKM(o.res == 1, "a connection nobody disconnected is connected");
                    if (s.de < o.b) CHECKM(o.res == 0, "a disconnected connection says so");
                }
                if (o.kind != OP_EMIT) continue;
                int called[MAXID + 1];
                for (int i = 0; i < MAXID; ++i) called[i] = 0;
                uint64_t first = 0, prevEnd = o.b;
                int last = -1;
                bool stopped = false;
                for (int j = 0; j < lg[t].n; ++j) {
                    Ev& e = lg[t].ev[j];
                    if (e.kind == DESTROY || e.em != o.id) continue;
                    CHECKM(e.t > o.b && e.t < o.e, "slots run within the emission, on its thread");
                    if (e.kind == END) { prevEnd = e.t; continue; }
                    CHECKM(e.id >= 0 && e.id < MAXID && sl[e.id].exists, "only connected slots are called");
                    S& s = sl[e.id];
                    CHECKM(++called[e.id] == 1, "a slot is called at most once per emission");
                    CHECKM(!stopped, "no slot is called after the emission was stopped");
                    if (!first) first = e.t;
                    CHECKM(!(s.cb >= first), "a slot connected during the emission is not called by it");
                    CHECKM(!(s.de < prevEnd), "a slot disconnected before its turn is not called");
                    if (last >= 0) CHECKM(before(last, e.id) != 0, "slots are called in connection order");
                    for (int u = 1; u <= B_THREADS; ++u)
                        for (int q = 0; q < lg[u].nop; ++q) {
                            Op& x = lg[u].op[q];
                            if (x.kind == OP_BLOCK && x.id == e.id) CHECKM(!(x.res < prevEnd && x.e > e.t), "a blocked slot is not called");
                        }
                    last = e.id;
                    stopped |= act[e.id] == 1;
                }
                for (int i = 0; i < MAXID; ++i) {
                    S& s = sl[i];
                    if (!s.exists || called[i] || !(s.ce < o.b) || !(s.mb > o.e)) continue;
                    bool blocked = false;
                    for (int u = 1; u <= B_THREADS; ++u)
                        for (int q = 0; q < lg[u].nop; ++q) {
                            Op& x = lg[u].op[q];
                            // the blocker is gone once its thread's next operation begins (or, for the last one, after the threads ended)
                            uint64_t gone = q + 1 < lg[u].nop ? lg[u].op[q + 1].b : UINT64_MAX;
                            if (x.kind == OP_BLOCK && x.id == i && x.b < o.e && gone > o.b) blocked = true;
                        }
                    CHECKM(blocked || stopped, "a connected slot is called by every emission");
                }
            }
        if (emitted) COVER("emitted");

        // releases so far
        for (int i = 0; i < MAXID; ++i) {
            if (!sl[i].exists) continue;
            int n = 0;
            for (int t = 0; t <= B_THREADS; ++t)
                for (int j = 0; j < lg[t].n; ++j) {
                    Ev& e = lg[t].ev[j];
                    if (e.kind != DESTROY || e.id != i) continue;
                    ++n;
                    for (int u = 0; u <= B_THREADS; ++u) {
                        uint64_t open = 0;
                        for (int q = 0; q < lg[u].n; ++q) {
                            Ev& f = lg[u].ev[q];
                            if (f.id != i) continue;
                            if (f.kind == CALL) { CHECKM(f.t < e.t, "a destroyed slot is not called"); open = f.t; }
                            if (f.kind == END && open) { CHECKM(f.t < e.t || e.t < open, "a slot is not destroyed while it runs"); open = 0; }
                        }
                    }
                }
            if (sl[i].de != UINT64_MAX) CHECKM(n == 1, "a disconnected slot is released once nobody uses it");
            else if (!sl[i].disc) CHECKM(n == 0, "a connected slot is kept");
            else CHECKM(n <= 1, "a slot is destroyed once");
        }
        // and what is left works
        size_t left = sig.s.num_slots();
        int from = lg[0].n;
        for (int i = 0; i < MAXID; ++i) act[i] = 0;
        sig.s(77, payload + 77);
        size_t calls = 0;
        int last = -1;
        for (int j = from; j < lg[0].n; ++j) {
            Ev& e = lg[0].ev[j];
            if (e.kind != CALL) continue;
            ++calls;
            CHECKM(e.em == 77 && sl[e.id].exists && sl[e.id].de == UINT64_MAX, "afterwards only connected slots are called");
            if (last >= 0) CHECKM(before(last, e.id) != 0, "afterwards slots are called in connection order");
            last = e.id;
        }
        CHECKM(calls == left, "afterwards every connected slot is called once");
        for (int i = 0; i < MAXID; ++i)
            if (sl[i].exists && !sl[i].disc) {
                int n = 0;
                for (int j = from; j < lg[0].n; ++j) n += lg[0].ev[j].kind == CALL && lg[0].ev[j].id == i;
                CHECKM(n == 1, "a slot nobody disconnected is still called");
            }
    }
    for (int i = 0; i < MAXID; ++i)
        if (sl[i].exists) {
            int n = 0;
            for (int t = 0; t <= B_THREADS; ++t)
                for (int j = 0; j < lg[t].n; ++j) n += lg[t].ev[j].kind == DESTROY && lg[t].ev[j].id == i;
            CHECKM(n == 1, "every slot is destroyed exactly once");
        }
    CHECKM(kls_heap_objects() == base, "nothing is leaked");
    COVER("end");
}
