// C23: connection, scoped_connection and blocker handles against a model.
#include "kls.h"
#include "kl/signal.hpp"
#include <memory>
#include <optional>
#include <vector>
static int calls[8];
struct token { // captured by every slot
    int* live;
    explicit token(int* l) : live(l) { ++*live; }
    token(const token& o) : live(o.live) { ++*live; }
    ~token() { --*live; }
};
static int live_[8];
struct world {
    std::unique_ptr<kl::signal<void()>> sig, old; // old has been moved from
    int n = 0;              // slots made so far
    bool conn[8] = {};      // slot is connected
    std::optional<kl::connection> c[2];
    int cs[2] = {-1, -1};   // slot a connection refers to, -1 none
    std::optional<kl::scoped_connection> s[2];
    int ss[2] = {-1, -1};
    std::optional<kl::connection::blocker> b[2];
    int bs[2] = {-1, -1};
};
static int blocked(world& w, int i) { return (w.bs[0] == i) + (w.bs[1] == i); }
static int refs(world& w, int i)
{
    int r = 0;
    for (int k = 0; k < 2; ++k) r += (w.cs[k] == i) + (w.ss[k] == i) + (w.bs[k] == i);
    return r;
}
static bool is_conn(world& w, int i) { return i >= 0 && w.conn[i] && w.sig; }
static void drop(world& w, int i) { if (i >= 0) w.conn[i] = false; }
static void check(world& w)
{
    for (int k = 0; k < 2; ++k) {
        CHECKM(w.c[k]->connected() == is_conn(w, w.cs[k]), "a connection knows whether its slot is connected");
        CHECKM(w.s[k]->get().connected() == is_conn(w, w.ss[k]), "a scoped connection knows whether its slot is connected");
        CHECKM(w.b[k]->blocking() == (w.bs[k] >= 0), "a blocker knows whether it blocks");
    }
    CHECKM((*w.c[0] == *w.c[1]) == (w.cs[0] == w.cs[1]), "connections are equal exactly when they refer to the same slot");
    if (w.cs[0] == w.cs[1]) CHECKM(std::hash<kl::connection>()(*w.c[0]) == std::hash<kl::connection>()(*w.c[1]), "equal connections hash alike");
    CHECKM(!(*w.c[0] < *w.c[1] && *w.c[1] < *w.c[0]) && ((*w.c[0] == *w.c[1]) == (!(*w.c[0] < *w.c[1]) && !(*w.c[1] < *w.c[0]))), "connections are strictly ordered");
    for (int i = 0; i < w.n; ++i) {
        bool held = is_conn(w, i) || refs(w, i) > 0;
        if (is_conn(w, i)) CHECKM(live_[i] >= 1, "a connected slot's callable is alive");
        if (!held) CHECKM(live_[i] == 0, "a slot's callable is destroyed when neither connected nor referred to");
    }
    if (w.old) {
        CHECKM(w.old->empty(), "a signal that was moved from has no slots");
        for (int i = 0; i < w.n; ++i) calls[i] = 0;
        (*w.old)();
        for (int i = 0; i < w.n; ++i) CHECKM(calls[i] == 0, "a signal that was moved from calls nothing");
    }
    if (w.sig) {
        for (int i = 0; i < w.n; ++i) calls[i] = 0;
        (*w.sig)();
        for (int i = 0; i < w.n; ++i) CHECKM(calls[i] == (w.conn[i] && !blocked(w, i) ? 1 : 0), "exactly the connected, unblocked slots are called");
    }
}
static void run()
{
    auto* w = new world;
    w->sig = std::make_unique<kl::signal<void()>>();
    for (int k = 0; k < 2; ++k) { w->c[k].emplace(); w->s[k].emplace(); w->b[k].emplace(); }
    for (int k = 0; k < B_OPS; ++k) {
        unsigned op = kls::choose("op", 12), i = kls::choose("i", 2), j = 1 - i;
        switch (op) {
        case 0: { // connect into c[i]
            kls_assume(w->sig != nullptr && w->n < 7);
            int id = w->n++;
            token t(&live_[id]);
            *w->c[i] = w->sig->connect([t, id] { (void)t; ++calls[id]; });
            w->conn[id] = true;
            w->cs[i] = id;
            break;
        }
        case 1: // copies
            if (kls::choose("ctor", 2)) { kl::connection t(*w->c[j]); w->c[i].emplace(t); }
            else *w->c[i] = *w->c[j];
            w->cs[i] = w->cs[j];
            break;
        case 2: // moves empty the source and leave the slots as they are
            if (kls::choose("ctor", 2)) w->c[i].emplace(std::move(*w->c[j]));
            else { kl::connection t(std::move(*w->c[j])); *w->c[i] = std::move(t); }
            w->cs[i] = w->cs[j];
            w->cs[j] = -1;
            break;
        case 3: // disconnect
            w->c[i]->disconnect();
            drop(*w, w->cs[i]);
            w->cs[i] = -1;
            break;
        case 4: // scoped takes a copy of a connection, dropping what it held
            w->s[i].emplace(*w->c[j]); // destroys the old value first
            drop(*w, w->ss[i]);
            w->ss[i] = w->cs[j];
            break;
        case 5: // scoped goes out of scope
            w->s[i].reset();
            drop(*w, w->ss[i]);
            w->s[i].emplace();
            w->ss[i] = -1;
            break;
        case 6: // release hands the connection out
            if (kls::choose("keep", 2)) { w->c[i].emplace(w->s[i]->release()); w->cs[i] = w->ss[i]; }
            else w->s[i]->release();
            w->ss[i] = -1;
            break;
        case 7: // move of scoped connections
            switch (kls::choose("sop", 3)) {
            case 0: {
                kl::scoped_connection t(std::move(*w->s[i]));
                CHECKM(!w->s[i]->get().connected(), "a moved-from scoped connection is empty");
                *w->s[i] = std::move(t);
                break;
            }
            case 1:
                swap(*w->s[0], *w->s[1]);
                std::swap(w->ss[0], w->ss[1]);
                break;
            default: { // assignment drops what the target held (at the latest when the source dies)
                int old = w->ss[i];
                {
                    kl::scoped_connection t(std::move(*w->s[j]));
                    *w->s[i] = std::move(t);
                }
                w->ss[i] = w->ss[j];
                w->ss[j] = -1;
                drop(*w, old);
            }
            }
            break;
        case 8: // blockers
            w->b[i].emplace(w->c[j]->get_blocker());
            w->bs[i] = w->cs[j];
            break;
        case 9:
            switch (kls::choose("bop", 6)) {
            case 0: *w->b[i] = *w->b[j]; w->bs[i] = w->bs[j]; break;
            case 1: { kl::connection::blocker t(*w->b[j]); w->b[i].emplace(t); w->bs[i] = w->bs[j]; break; }
            case 2: w->b[i].emplace(std::move(*w->b[j])); w->bs[i] = w->bs[j]; w->bs[j] = -1; break;
            case 3: swap(*w->b[i], *w->b[j]); std::swap(w->bs[i], w->bs[j]); break;
            case 4: { kl::connection::blocker t(std::move(*w->b[j])); *w->b[i] = std::move(t); w->bs[i] = w->bs[j]; w->bs[j] = -1; break; }
            default: *w->b[i] = kl::connection::blocker(); w->bs[i] = -1; break;
            }
            break;
        case 10: // the signal moves
            kls_assume(w->sig != nullptr);
            if (i) {
                auto t = std::make_unique<kl::signal<void()>>(std::move(*w->sig));
                w->old = std::move(w->sig);
                w->sig = std::move(t);
            } else {
                kl::signal<void()> t;
                swap(t, *w->sig);
                CHECKM(w->sig->empty(), "swapped with an empty signal");
                *w->sig = std::move(t);
            }
            break;
        default: // the signal dies, or drops everything
            kls_assume(w->sig != nullptr);
            if (i) w->sig.reset();
            else w->sig->disconnect_all_slots();
            for (bool& x : w->conn) x = false;
            COVER("died");
        }
        check(*w);
    }
    for (int k = 0; k < 2; ++k) { *w->b[k] = kl::connection::blocker(); w->bs[k] = -1; }
    check(*w); // nothing stays blocked
    delete w;
    for (int i = 0; i < 8; ++i) CHECKM(live_[i] == 0, "every callable is destroyed in the end");
    COVER("end");
}
// slots that own scoped connections to other slots of the same signal
static void nested()
{
    kl::signal<void()>* sig = new kl::signal<void()>;
    int order = (int)kls::choose("order", 2), ran = 0;
    kl::connection outer, inner;
    auto hold = std::make_shared<kl::scoped_connection>();
    auto ch = [&](kl::connect_position at) { inner = sig->connect([&] { ++ran; }, at); };
    if (order == 0) ch(kl::at_back);
    outer = sig->connect([hold, &ran] { ++ran; }, kl::at_back);
    if (order == 1) ch(kl::at_back);
    *hold = kl::scoped_connection(inner);
    hold.reset();
    (*sig)();
    CHECKM(ran == 2, "both run");
    switch (kls::choose("how", 5)) {
    case 0: outer = kl::connection(); sig->disconnect_all_slots(); break;
    case 1: outer.disconnect(); break;
    case 2: outer = kl::connection(); delete sig; sig = nullptr; break;
    case 3: {
        sig->connect([o = std::move(outer)]() mutable { o.disconnect(); }, kl::at_front);
        (*sig)();
        CHECKM(sig->num_slots() == 1, "removing the owner removed what it owned");
        break;
    }
    default: {
        outer = kl::connection();
        kl::signal<void()> t;
        swap(t, *sig);
        break;
    }
    }
    CHECKM(!inner.connected(), "a slot owned by another slot goes with it");
    inner = kl::connection();
    delete sig;
    COVER("end");
    COVER("died");
}
extern "C" void kls_harness()
{
    uint64_t base = kls_heap_objects();
#ifdef B_NESTED
    nested();
#else
    run();
#endif
    CHECKM(kls_heap_objects() == base, "nothing leaks");
}
