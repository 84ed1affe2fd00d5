// C21: histories of operations on signals, outside of emissions.
#include "kls.h"
#include "kl/signal.hpp"
#include <memory>
#include <string>
#include <vector>
static std::vector<std::pair<int, int>> log_; // slot id, argument
struct obj {
    int id;
    void mem(int a) { log_.push_back({id, a}); }
    void cmem(int a) const { log_.push_back({id, a}); }
    int ret(int a) { log_.push_back({id, a}); return 1; }
};
static void free_fn(int a) { log_.push_back({100, a}); }
struct mslot {
    int id;
    int sig;
    bool connected;
    int blocked;
    bool dead; // weakly held object is gone
};
struct world {
    std::vector<std::unique_ptr<kl::signal<void(int)>>> sigs;
    std::vector<kl::connection> con;
    std::vector<mslot> st;
    std::vector<std::vector<int>> list; // per signal, indexes into st in order
    std::vector<std::pair<int, kl::connection::blocker>> blockers;
    std::vector<std::unique_ptr<obj>> objs;
    std::vector<std::pair<int, std::shared_ptr<obj>>> shared;
};
static void consistent(world& w)
{
    for (int s = 0; s < 2; ++s) {
        size_t n = 0;
        for (auto& m : w.st) n += m.sig == s && m.connected;
        CHECKM(w.sigs[s]->num_slots() == n && w.sigs[s]->empty() == (n == 0), "num_slots() counts the connected slots");
    }
    for (size_t i = 0; i < w.st.size(); ++i) CHECKM(w.con[i].connected() == w.st[i].connected, "connected() is current");
}
static void connect(world& w, int s, unsigned kind, kl::connect_position at)
{
    int idx = (int)w.st.size();
    auto& sig = *w.sigs[s];
    auto o = std::make_unique<obj>();
    o->id = idx;
    obj* p = o.get();
    mslot m{idx, s, true, 0, false};
    kl::connection c;
    switch (kind) {
    case 0: c = sig.connect([idx](int a) { log_.push_back({idx, a}); }, at); break;
    case 1: c = sig.connect(&obj::mem, p, at); break;
    case 2: c = sig.connect(&obj::cmem, (const obj&)*p, at); break;
    case 3: c = sig.connect(&obj::ret, *p, at); break;
    case 4: {
        auto sp = std::make_shared<obj>();
        sp->id = idx;
        c = sig.connect(&obj::mem, sp, at);
        break;
    }
    case 5: {
        auto sp = std::make_shared<obj>();
        sp->id = idx;
        c = sig.connect(&obj::mem, std::weak_ptr<obj>(sp), at);
        w.shared.push_back({idx, sp});
        break;
    }
    case 6:
        c = sig.connect(&free_fn, at);
        m.id = 100;
        break;
    case 7:
        c = sig.connect(&obj::cmem, (const obj*)p, at);
        break;
    case 9: {
        auto sp = std::make_shared<obj>();
        sp->id = idx;
        c = sig.connect(&obj::cmem, std::shared_ptr<const obj>(sp), at);
        break;
    }
    case 10: {
        auto sp = std::make_shared<obj>();
        sp->id = idx;
        c = sig.connect(&obj::cmem, std::weak_ptr<const obj>(sp), at);
        w.shared.push_back({idx, sp});
        break;
    }
    default:
        c = sig += [idx](int a) { log_.push_back({idx, a}); };
        at = kl::at_back;
    }
    w.objs.push_back(std::move(o));
    w.st.push_back(m);
    w.con.push_back(c);
    if (at == kl::at_back) w.list[s].push_back(idx);
    else w.list[s].insert(w.list[s].begin(), idx);
}
static void emit(world& w, int s)
{
    log_.clear();
    int arg = kls::sym<int>("arg");
    (*w.sigs[s])(arg);
    size_t k = 0;
    for (int i : w.list[s]) {
        auto& m = w.st[i];
        if (!m.connected || m.blocked || m.dead) continue;
        CHECKM(k < log_.size() && log_[k].first == m.id && log_[k].second == arg, "emission calls the connected, unblocked slots in order with the argument");
        ++k;
    }
    CHECKM(k == log_.size(), "emission calls nothing else");
    CHECKM(!kl::this_signal::current_connection().connected(), "no current connection outside of slots");
    COVER("emitted");
}
static void run()
{
    auto* w = new world;
    for (int i = 0; i < 2; ++i) w->sigs.push_back(std::make_unique<kl::signal<void(int)>>());
    w->list.resize(2);
    bool fullkinds = false;
    for (int k = 0; k < B_OPS; ++k) {
        unsigned n = (unsigned)w->st.size();
        unsigned op = kls::choose("op", 9);
        switch (op) {
        case 0: {
            unsigned kind = kls::choose("kind", B_KINDS);
            connect(*w, 0, kind, kls::choose("front", 2) ? kl::at_front : kl::at_back);
            break;
        }
        case 1: connect(*w, 1, 0, kl::at_back); break;
        case 2: {
            kls_assume(n > 0);
            unsigned j = kls::choose("j", n);
            kl::connection c = w->con[j];
            c.disconnect();
            w->st[j].connected = false;
            break;
        }
        case 3:
            w->sigs[0]->disconnect_all_slots();
            for (auto& m : w->st) if (m.sig == 0) m.connected = false;
            break;
        case 4: {
            kls_assume(n > 0);
            unsigned j = kls::choose("j", n);
            w->blockers.push_back({(int)j, w->con[j].get_blocker()});
            w->st[j].blocked++;
            CHECKM(w->blockers.back().second.blocking(), "a blocker blocks");
            break;
        }
        case 5: {
            kls_assume(!w->blockers.empty());
            unsigned j = kls::choose("b", (unsigned)w->blockers.size());
            w->st[w->blockers[j].first].blocked--;
            w->blockers.erase(w->blockers.begin() + j);
            break;
        }
        case 6: emit(*w, 0); break;
        case 7: {
            unsigned how = kls::choose("how", 4);
            if (how == 0) {
                using std::swap;
                swap(*w->sigs[0], *w->sigs[1]);
            } else if (how == 1) {
                kl::signal<void(int)> t(std::move(*w->sigs[0]));
                CHECKM(w->sigs[0]->empty(), "a moved-from signal is empty");
                *w->sigs[0] = std::move(*w->sigs[1]);
                *w->sigs[1] = std::move(t);
            } else if (how == 2) {
                *w->sigs[0] = std::move(*w->sigs[1]); // swaps
            } else { // to a new place, the old one goes away
                unsigned which = kls::choose("which", 2);
                auto t = std::make_unique<kl::signal<void(int)>>(std::move(*w->sigs[which]));
                (*w->sigs[which])(0);
                w->sigs[which] = std::move(t);
                break;
            }
            std::swap(w->list[0], w->list[1]);
            for (auto& m : w->st) m.sig ^= 1;
            COVER("moved");
            break;
        }
        default:
            if (kls::choose("null", 2)) {
                kl::connection c = w->sigs[0]->connect(std::function<void(int)>());
                CHECKM(!c.connected(), "connecting nothing connects nothing");
            } else {
                kls_assume(!w->shared.empty());
                w->st[w->shared.back().first].dead = true;
                w->shared.pop_back();
            }
        }
        consistent(*w);
    }
    emit(*w, 0);
    emit(*w, 1);
    // the signals go first; connections outlive them
    w->sigs.clear();
    for (auto& c : w->con) {
        CHECKM(!c.connected(), "destroying a signal disconnects its slots");
        c.disconnect();
    }
    delete w;
    log_.clear();
    log_.shrink_to_fit();
    COVER("end");
}
#ifdef B_CHAIN
// signals connected to signals
static void chain()
{
    kl::signal<void(int)> a, b;
    kl::signal<void(const std::string&, int)> c, d;
    std::vector<int> got;
    int arg = kls::sym<int>("arg");
    bool front = kls::choose("front", 2);
    bool cut = kls::choose("cut", 2);
    a.connect([&](int x) { got.push_back(1); CHECK(x == arg); });
    auto con = a.connect(b, front ? kl::at_front : kl::at_back);
    b.connect([&](int x) { got.push_back(2); CHECK(x == arg); });
    if (cut) con.disconnect();
    a(arg);
    std::vector<int> w;
    if (cut) w = {1};
    else if (front) w = {2, 1};
    else w = {1, 2};
    CHECKM(got == w, "a connected signal is emitted in the place of a slot");
    std::string s(1, (char)arg);
    got.clear();
    c.connect([&](std::string t, int x) { CHECKM(t == s && x == arg, "arguments reach every slot intact"); t += "x"; got.push_back(1); });
    c.connect(d);
    d.connect([&](const std::string& t, int x) { CHECKM(t == s && x == arg, "arguments reach every slot intact"); got.push_back(2); });
    c.connect([&](const std::string& t, long x) { CHECKM(t == s && (int)x == arg, "arguments reach every slot intact"); got.push_back(3); }, kl::at_front);
    c(s, arg);
    w = {3, 1, 2};
    CHECKM(got == w, "order across connected signals");
    CHECKM(s.size() == 1 && s[0] == (char)arg, "the emitter's argument is untouched");
    // by value parameters: every slot gets its own copy
    kl::signal<void(std::vector<int>)> e;
    int n = 0;
    for (int i = 0; i < 3; ++i)
        e.connect([&](std::vector<int> v) { CHECKM(v.size() == 2 && v[0] == arg && v[1] == 7, "by-value arguments are copied for every slot"); v.clear(); ++n; });
    e({arg, 7});
    CHECKM(n == 3, "three slots called");
    COVER("end");
    COVER("emitted");
}
#endif
extern "C" void kls_harness()
{
    uint64_t base = kls_heap_objects();
#ifdef B_CHAIN
    chain();
#else
    run();
#endif
    CHECKM(kls_heap_objects() == base, "nothing leaks");
}
