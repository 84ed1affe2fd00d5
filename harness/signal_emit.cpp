// C21/C22: emission order, arguments, blocking, re-entrancy; every slot may act on
// the signal while it is being called.  Checked online against a model.
#include "kls.h"
#include "kl/signal.hpp"
#include <vector>
struct boom { int id; };
static int live; // callables in existence
struct token {
    token() { ++live; }
    token(const token&) { ++live; }
    ~token() { --live; }
};
struct mslot {
    bool connected = true;
    int blocked = 0;
};
struct frame {
    std::vector<int> order;
    size_t pos = 0;
    bool stopped = false;
    int arg = 0;
};
struct world {
    kl::signal<void(int)> sig;
    std::vector<kl::connection> con;
    std::vector<mslot> st;
    std::vector<int> list; // slot ids in emission order, disconnected ones removed when found
    std::vector<frame> frames;
    std::vector<kl::connection::blocker> blockers;
    std::vector<int> who; // slots blocked by them
    int budget = B_ACTS;
    int depth = 0;
};
static void called(world& w, int id, int arg);
static bool callable(world& w, int id) { return w.st[id].connected && !w.st[id].blocked; }
static void add(world& w, kl::connect_position at)
{
    int id = (int)w.con.size();
    w.st.push_back({});
    w.con.emplace_back();
    world* p = &w;
    token t;
    w.con[id] = w.sig.connect([p, id, t](int a) { called(*p, id, a); }, at);
    CHECKM(w.con[id].connected(), "a fresh connection is connected");
    if (at == kl::at_back) w.list.push_back(id);
    else w.list.insert(w.list.begin(), id);
}
static void consistent(world& w)
{
    size_t n = 0;
    for (size_t i = 0; i < w.st.size(); ++i) {
        n += w.st[i].connected;
        CHECKM(w.con[i].connected() == w.st[i].connected, "connected() is current");
    }
    CHECKM(w.sig.num_slots() == n && w.sig.empty() == (n == 0), "num_slots() counts the connected slots");
}
static void emit(world& w)
{
    frame f;
    for (int id : w.list)
        if (w.st[id].connected) f.order.push_back(id);
    f.arg = kls::sym<int>("arg");
    int arg = f.arg;
    w.frames.push_back(f);
    size_t at = w.frames.size();
    bool threw = false;
    int who = -1;
    auto outer = kl::this_signal::current_connection();
    try {
        w.sig(arg);
    } catch (boom b) {
        threw = true;
        who = b.id;
    }
    CHECKM(w.frames.size() == at, "nested emissions are finished");
    frame& g = w.frames.back();
    if (!threw && !g.stopped)
        for (; g.pos < g.order.size(); ++g.pos) CHECKM(!callable(w, g.order[g.pos]), "every connected, unblocked slot is called");
    w.frames.pop_back();
    CHECKM(kl::this_signal::current_connection() == outer, "the enclosing emission's current connection is restored");
    consistent(w);
    if (threw) {
        COVER("threw");
        if (!w.frames.empty() && kls::choose("propagate", 2)) throw boom{who};
    }
}
static bool act(world& w, int id)
{
    size_t n = w.st.size();
    // actions: 0 nothing, then the list below
    unsigned a = kls::choose("act", 8);
    if (a == 0) return false;
    --w.budget;
    switch (a) {
    case 1: {
        unsigned j = kls::choose("who", (unsigned)n);
        if (kls::choose("via", 2)) {
            kl::connection c = w.con[j];
            c.disconnect();
            CHECKM(!c.connected(), "a disconnected connection is not connected");
        } else if (j == (unsigned)id) {
            kl::this_signal::current_connection().disconnect();
        } else {
            kl::connection c(w.con[j]);
            kl::scoped_connection sc(c);
        }
        w.st[j].connected = false;
        break;
    }
    case 2:
        w.sig.disconnect_all_slots();
        for (auto& s : w.st) s.connected = false;
        break;
    case 3: add(w, kl::at_back); break;
    case 4: add(w, kl::at_front); break;
    case 5:
        kl::this_signal::stop_emission();
        w.frames.back().stopped = true;
        COVER("stopped");
        break;
    case 6: {
        if (!w.blockers.empty() && kls::choose("lift", 2)) {
            w.blockers.pop_back();
            w.st[w.who.back()].blocked--;
            w.who.pop_back();
            COVER("lifted");
            break;
        }
        unsigned j = kls::choose("blk", (unsigned)n);
        w.blockers.push_back(w.con[j].get_blocker());
        w.who.push_back((int)j);
        w.st[j].blocked++;
        COVER("blocked");
        break;
    }
    default:
        if (kls::choose("throw", 2)) throw boom{id};
        if (w.depth < 2) {
            ++w.depth;
            emit(w);
            --w.depth;
            COVER("nested");
        }
    }
    return true;
}
static void called(world& w, int id, int arg)
{
    CHECKM(!w.frames.empty(), "slots are called only while emitting");
    frame& f = w.frames.back();
    CHECKM(!f.stopped, "no slot is called after the emission was stopped");
    while (f.pos < f.order.size() && !callable(w, f.order[f.pos])) ++f.pos;
    CHECKM(f.pos < f.order.size() && f.order[f.pos] == id, "slots are called once each, in connection order, if connected and not blocked");
    ++f.pos;
    CHECKM(arg == f.arg, "slots receive the emitted arguments");
    CHECKM(kl::this_signal::current_connection() == w.con[id], "current_connection() is the running slot's");
    // any number of actions, as long as the budget lasts
    while (w.budget > 0 && act(w, id)) consistent(w);
}
static void run()
{
    auto* w = new world;
    w->con.reserve(16);
    w->st.reserve(16);
    w->blockers.reserve(8);
    w->frames.reserve(8);
    unsigned n = kls::choose("n", B_SLOTS + 1);
    for (unsigned i = 0; i < n; ++i) add(*w, kls::choose("front", 2) ? kl::at_front : kl::at_back);
    consistent(*w);
    if (n && kls::choose("preblock", 2)) {
        unsigned j = kls::choose("blk", n);
        w->blockers.push_back(w->con[j].get_blocker());
        w->who.push_back((int)j);
        w->st[j].blocked++;
    }
    emit(*w);
    w->budget = 0;
    if (!w->blockers.empty()) {
        // lifting the blocks
        w->blockers.clear();
        for (auto& s : w->st) s.blocked = 0;
    }
    // nothing but the signal itself keeps a slot now
    int connected = 0;
    for (size_t i = 0; i < w->st.size(); ++i) {
        if (!w->st[i].connected) w->con[i] = kl::connection();
        connected += w->st[i].connected;
    }
    CHECKM(live == connected, "disconnected slots are released when the emission has ended");
    emit(*w);
    delete w;
    COVER("end");
}
extern "C" void kls_harness()
{
    uint64_t base = kls_heap_objects();
    run();
    CHECKM(kls_heap_objects() == base, "slots are destroyed when signal and handles are gone");
}
