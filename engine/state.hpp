// Execution state of the symbolic executor: memory, threads, path condition.
#pragma once
#include "expr.hpp"
#include <map>
#include <string>

struct Val { u64 c; E e; };
inline Val V(u64 c) { return Val{c, nullptr}; }
inline Val V(E e, unsigned) { return isc(e) && e->w <= 64 ? Val{(u64)e->cv, nullptr} : Val{0, e}; }
inline Val VE(E e) { return isc(e) && e->w <= 64 ? Val{(u64)e->cv, nullptr} : Val{0, e}; }
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : C->konst(v.c, w); }

// ---------------------------------------------------------------- memory
constexpr unsigned PG = 256;
constexpr u64 OBJ_BASE = 0x100000000ull;
constexpr unsigned SLOT_SHIFT = 20;
constexpr u64 MAX_OBJ = 900 * 1024;
#define UNDEF ((E)(uintptr_t)1)

struct Page {
    int rc = 1;
    unsigned len, nsym = 0;
    uint8_t* b;
    E* sym = nullptr; // per byte: null = concrete, UNDEF = uninitialised
    explicit Page(unsigned n) : len(n), b((uint8_t*)calloc(1, n)) {}
    Page(const Page& o) : len(o.len), nsym(o.nsym), b((uint8_t*)malloc(o.len))
    {
        memcpy(b, o.b, len);
        if (o.nsym) {
            sym = (E*)malloc(len * sizeof(E));
            memcpy(sym, o.sym, len * sizeof(E));
        }
    }
    ~Page() { free(b); free(sym); }
};

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXC };

struct Access { u32 off, len; int tid; u32 clk; bool wr, atomic; const void* ins; };

struct Obj {
    int rc = 1;
    u64 addr, size;
    ObjKind kind;
    bool ro = false, freed = false, ignoreLeak = false;
    const void* site = nullptr; // allocating instruction
    std::vector<Page*> pg;      // null page = wholly uninitialised
    std::vector<Access> acc;    // race detection
    Obj() {}
    Obj(const Obj& o) : addr(o.addr), size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), ignoreLeak(o.ignoreLeak), site(o.site), pg(o.pg), acc(o.acc)
    {
        for (Page* p : pg) if (p) p->rc++;
    }
    ~Obj() { drop(); }
    void drop()
    {
        for (Page* p : pg) if (p && --p->rc == 0) delete p;
        pg.clear();
    }
    unsigned plen(unsigned i) const { u64 r = size - (u64)i * PG; return r > PG ? PG : (unsigned)r; }
    Page* wpage(unsigned i)
    {
        Page*& p = pg[i];
        if (!p) {
            p = new Page(plen(i));
            p->sym = (E*)malloc(p->len * sizeof(E));
            for (unsigned k = 0; k < p->len; ++k) p->sym[k] = UNDEF;
            p->nsym = p->len;
        } else if (p->rc > 1) {
            Page* n = new Page(*p);
            p->rc--;
            p = n;
        }
        return p;
    }
    // byte access (in-bounds, unshared object for writes)
    bool getb(u64 o, uint8_t& v, E& e) const
    {
        Page* p = pg[o / PG];
        unsigned k = o % PG;
        if (!p) { e = UNDEF; return false; }
        if (p->nsym && p->sym[k]) { e = p->sym[k]; return false; }
        v = p->b[k];
        e = nullptr;
        return true;
    }
    void setc(u64 o, uint8_t v)
    {
        Page* p = wpage(o / PG);
        unsigned k = o % PG;
        if (p->nsym && p->sym[k]) { p->sym[k] = nullptr; p->nsym--; if (!p->nsym) { free(p->sym); p->sym = nullptr; } }
        p->b[k] = v;
    }
    void sete(u64 o, E e)
    {
        if (e == nullptr) return;
        if (e != UNDEF && isc(e)) { setc(o, (uint8_t)e->cv); return; }
        Page* p = wpage(o / PG);
        unsigned k = o % PG;
        if (!p->sym) p->sym = (E*)calloc(p->len, sizeof(E));
        if (!p->sym[k]) p->nsym++;
        p->sym[k] = e;
    }
};

constexpr unsigned CH = 64;
struct Chunk {
    int rc = 1;
    Obj* o[CH];
    Chunk() { memset(o, 0, sizeof o); }
    Chunk(const Chunk& c) { memcpy(o, c.o, sizeof o); for (Obj* x : o) if (x) x->rc++; }
    ~Chunk() { for (Obj* x : o) if (x && --x->rc == 0) delete x; }
};

struct Heap {
    std::vector<Chunk*> ch;
    u32 next = 0;
    Heap() {}
    Heap(const Heap& h) : ch(h.ch), next(h.next) { for (Chunk* c : ch) c->rc++; }
    ~Heap() { for (Chunk* c : ch) if (--c->rc == 0) delete c; }
    Heap& operator=(const Heap&) = delete;
    const Obj* get(u64 id) const
    {
        return id < next ? ch[id / CH]->o[id % CH] : nullptr;
    }
    Obj* wget(u64 id)
    {
        Chunk*& c = ch[id / CH];
        if (c->rc > 1) { Chunk* n = new Chunk(*c); c->rc--; c = n; }
        Obj*& o = c->o[id % CH];
        if (o->rc > 1) { Obj* n = new Obj(*o); o->rc--; o = n; }
        return o;
    }
    void put(u64 id, Obj* ob)
    {
        Chunk*& c = ch[id / CH];
        if (c->rc > 1) { Chunk* n = new Chunk(*c); c->rc--; c = n; }
        Obj*& o = c->o[id % CH];
        if (o && --o->rc == 0) delete o;
        o = ob;
    }
    Obj* alloc(u64 size, ObjKind k, bool zero)
    {
        u32 id = next++;
        if (id / CH >= ch.size()) ch.push_back(new Chunk());
        Obj* o = new Obj();
        o->addr = OBJ_BASE + ((u64)id << SLOT_SHIFT);
        o->size = size;
        o->kind = k;
        unsigned np = (unsigned)((size + PG - 1) / PG);
        o->pg.assign(np, nullptr);
        if (zero)
            for (unsigned i = 0; i < np; ++i) o->pg[i] = new Page(o->plen(i));
        put(id, o);
        return o;
    }
};
inline bool addrToId(u64 a, u64& id)
{
    if (a < OBJ_BASE) return false;
    id = (a - OBJ_BASE) >> SLOT_SHIFT;
    return true;
}

// ---------------------------------------------------------------- control
struct FnInfo;
struct Frame {
    FnInfo* fn;
    u32 pc = 0;
    std::vector<Val> r;
    std::vector<u32> allocas;
    std::vector<Val> va;
    u64 lpExc = 0;
    u32 lpSel = 0;
    bool dtorFrame = false;
};

typedef std::vector<u32> VC;
struct Thread {
    std::vector<Frame> st;
    bool done = false;
    bool granted = false; // the pending visible operation has been scheduled
    int joinOn = -1;
    u64 pendingLock = 0;
    bool started = false;
    u64 caught = 0;       // top of the caught-exception stack (rt)
    VC vc;
    std::map<u64, u64> tls;
};

struct Input { std::string name; u32 var; unsigned w; };

struct State {
    Heap h;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<E> pc;
    std::shared_ptr<const Model> model;
    std::vector<Input> in;
    std::vector<std::pair<E, u64>> known;
    std::vector<std::pair<E, bool>> decided;
    std::vector<u32> startup; // functions still to run (reversed)
    bool dead = false;
    bool handled = false; // builtin arranged control flow itself
    u32 nvars = 0;
    u64 allocLimit = 0;
    u32 preempt = 0;
    u32 maxPreempt = 0;
    u64 now = 0; // harness clock
    u32 depth = 0;
    u64 steps = 0;
    bool oom = false;
    u32 oomLeft = 0;
    std::map<u64, VC> mvc;  // vector clocks of mutexes / atomics
    std::map<u64, int> mown; // mutex address -> owner thread + 1
    std::vector<int> cov; // cover points reached on this path
    State() {}
    State(const State&) = default;
};
