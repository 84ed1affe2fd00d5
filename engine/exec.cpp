#include "exec.hpp"
#include "llvm/Demangle/Demangle.h"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
using namespace llvm;

static const Val& R(const Frame& f, int o) { return o >= 0 ? f.r[o] : f.fn->cp[~o]; }

// ------------------------------------------------------------------ basics
State* Exec::clone(State& s)
{
    State* n = new State(s);
    n->depth++;
    SH->forks++;
    return n;
}

void Exec::add(State& s, E c)
{
    if (isc(c)) return;
    if (c->k == AND && c->w == 1) { add(s, c->a); add(s, c->b); return; }
    s.pc.push_back(c);
}

E Exec::freshSym(State& s, const std::string& name, unsigned w, bool input)
{
    // variable identity is per path: the n-th variable of a path is shared between sibling paths
    u64 key = ((u64)s.nvars++ << 8) | w;
    auto it = varCache.find(key);
    E e;
    if (it != varCache.end()) e = it->second;
    else { e = C->sym(name, w); varCache[key] = e; }
    if (input) s.in.push_back({name, (u32)e->cv, w});
    // fresh variables start at 0 in the model
    if (s.model->size() > (u64)e->cv && (*s.model)[(u64)e->cv] != 0) {
        auto m = std::make_shared<Model>(*s.model);
        (*m)[(u64)e->cv] = 0;
        s.model = m;
    }
    return e;
}

std::string Exec::where(State& s)
{
    std::string r;
    auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0;) {
        Frame& f = st[i];
        if (f.pc >= f.fn->ins.size()) continue;
        const DILocation* dl = f.fn->ins[f.pc].I->getDebugLoc();
        if (!dl) continue;
        std::string fn = dl->getFilename().str();
        // innermost location that lies in the repository or a harness
        for (const DILocation* d = dl; d; d = d->getInlinedAt()) {
            std::string g = d->getFilename().str(), dir = d->getDirectory().str();
            if (g.find("/usr/") == 0 || g.find("/rt/") != std::string::npos || g.find("c++/") != std::string::npos) continue;
            return g + ":" + std::to_string(d->getLine());
        }
    }
    return "?";
}

std::string Exec::backtrace(State& s)
{
    std::string r;
    auto& st = s.th[s.cur].st;
    int n = 0;
    for (size_t i = st.size(); i-- > 0 && n < 24;) {
        Frame& f = st[i];
        const Instruction* I = f.pc < f.fn->ins.size() ? f.fn->ins[f.pc].I : nullptr;
        std::string fn = demangle(f.fn->F->getName().str());
        if (fn.size() > 160) fn = fn.substr(0, 160) + "...";
        if (I && I->getDebugLoc()) {
            for (const DILocation* d = I->getDebugLoc(); d; d = d->getInlinedAt()) {
                std::string sub = d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "";
                r += "  " + (d->getInlinedAt() ? sub + " [inlined]" : fn) + " at " + d->getFilename().str() + ":" + std::to_string(d->getLine()) + "\n";
                if (++n >= 24) break;
            }
        } else {
            r += "  " + fn + "\n";
            n++;
        }
    }
    return r;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

void Exec::report(State& s, const std::string& kind, const std::string& msg, const Model* m)
{
    if (!m) m = s.model.get();
    std::string loc = where(s);
    u64 h = std::hash<std::string>()(kind + "|" + msg + "|" + loc);
    if (!h) h = 1;
    int ns = SH->violSlots.load();
    for (int i = 0; i < ns && i < 64; ++i) if (SH->violHash[i] == h) return;
    int k = SH->violSlots.fetch_add(1);
    if (k >= (int)opt.maxViol || k >= 64) { SH->stop = 1; return; }
    SH->violHash[k] = h;
    if (!SH->violations) SH->firstViol = nowMs();
    SH->violations++;
    std::string f = opt.out + "/viol_" + std::to_string(k) + ".json";
    FILE* o = fopen(f.c_str(), "w");
    if (!o) { perror("viol"); _exit(3); }
    fprintf(o, "{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"backtrace\":%s,\n \"inputs\":[", jstr(kind).c_str(), jstr(msg).c_str(), jstr(loc).c_str(), jstr(backtrace(s)).c_str());
    bool first = true;
    for (auto& i : s.in) {
        u64 v = i.var < m->size() ? (*m)[i.var] & (u64)maskw(i.w) : 0;
        fprintf(o, "%s\n  {\"name\":%s,\"bits\":%u,\"value\":%llu}", first ? "" : ",", jstr(i.name).c_str(), i.w, (unsigned long long)v);
        first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
    if (k + 1 >= (int)opt.maxViol) SH->stop = 1;
    if (opt.verbose) fprintf(stderr, "VIOL %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), backtrace(s).c_str());
}

// Record the inputs of a completed path so that it can be replayed natively.
void Exec::witness(State& s)
{
    int k = SH->nwit.fetch_add(1);
    if (k >= 24) return;
    FILE* o = fopen((opt.out + "/wit_" + std::to_string(k) + ".json").c_str(), "w");
    if (!o) return;
    fprintf(o, "{\"covers\":[");
    for (size_t i = 0; i < s.cov.size(); ++i) fprintf(o, "%s%s", i ? "," : "", jstr(SH->cov[s.cov[i]]).c_str());
    fprintf(o, "],\n \"inputs\":[");
    for (size_t i = 0; i < s.in.size(); ++i) {
        u64 v = s.in[i].var < s.model->size() ? (*s.model)[s.in[i].var] & (u64)maskw(s.in[i].w) : 0;
        fprintf(o, "%s{\"name\":%s,\"bits\":%u,\"value\":%llu}", i ? "," : "", jstr(s.in[i].name).c_str(), s.in[i].w, (unsigned long long)v);
    }
    fprintf(o, "]}\n");
    fclose(o);
}

void Exec::incomplete(State& s, const std::string& why)
{
    SH->incomplete++;
    u64 h = std::hash<std::string>()(why);
    if (incompleteSeen.count(h)) return;
    incompleteSeen[h] = why;
    std::string w = why + " at " + where(s);
    FILE* o = fopen((opt.out + "/incomplete.txt").c_str(), "a");
    if (o) { fprintf(o, "%s\n", w.c_str()); fclose(o); }
    if (opt.verbose) fprintf(stderr, "INCOMPLETE %s\n%s", w.c_str(), backtrace(s).c_str());
}

bool Exec::mayBe(State& s, E cond, std::shared_ptr<const Model>& m)
{
    if (isc(cond)) { if (cond->cv) m = s.model; return cond->cv != 0; }
    if (C->eval(cond, *s.model)) { m = s.model; return true; }
    SR r = S.check(s, cond, m);
    if (r == UNK_) incomplete(s, "solver timeout");
    return r == SAT_;
}

bool Exec::decide(State& s, E cond)
{
    if (isc(cond)) return cond->cv != 0;
    E neg = C->bnot(cond);
    size_t lim = s.pc.size() > 64 ? s.pc.size() - 64 : 0;
    for (size_t i = s.pc.size(); i-- > lim;) {
        if (s.pc[i] == cond) return true;
        if (s.pc[i] == neg) return false;
    }
    for (size_t i = s.decided.size(); i-- > 0;) if (s.decided[i].first == cond) return s.decided[i].second;
    bool t = C->eval(cond, *s.model) != 0;
    std::shared_ptr<const Model> m;
    E other = t ? neg : cond, mine = t ? cond : neg;
    SR r = S.check(s, other, m);
    if (r == SAT_) {
        State* n = clone(s);
        n->model = m;
        add(*n, other);
        work.push_back(n);
        add(s, mine);
    } else if (r == UNK_) {
        incomplete(s, "solver timeout");
        add(s, mine);
    } else {
        s.decided.push_back({cond, t});
        if (s.decided.size() > 64) s.decided.erase(s.decided.begin(), s.decided.begin() + 32);
    }
    return t;
}

u64 Exec::concretize(State& s, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    if (isc(v.e)) return (u64)v.e->cv;
    for (auto& k : s.known) if (k.first == v.e) return k.second;
    u64 x = (u64)C->eval(v.e, *s.model);
    E eq = C->eq(v.e, C->konst(x, w));
    SH->concretized++;
    decide(s, eq); // true under the current model; the clone re-executes with "!="
    s.known.push_back({v.e, x});
    return x;
}

// ------------------------------------------------------------------ memory
const Obj* Exec::find(State& s, u64 addr)
{
    u64 id;
    if (!addrToId(addr, id)) return nullptr;
    return s.h.get(id);
}

static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

void Exec::touch(State& s, const Obj* o, u64 off, u64 n, bool wr, bool atomic)
{
    if (s.th.size() < 2 || n == 0) return;
    if (o->ro) return;
    VC& vc = s.th[s.cur].vc;
    for (auto& a : o->acc) {
        if (a.tid == s.cur) continue;
        if (a.off + (u64)a.len <= off || off + n <= a.off) continue;
        if (!wr && !a.wr) continue;
        if (atomic && a.atomic) continue;
        u32 seen = (size_t)a.tid < vc.size() ? vc[a.tid] : 0;
        if (a.clk > seen) {
            report(s, "data-race", std::string(wr ? "write" : "read") + " races with " + (a.wr ? "write" : "read") + " by another thread");
            s.dead = true;
            return;
        }
    }
    u64 id;
    addrToId(o->addr, id);
    Obj* w = s.h.wget(id);
    for (size_t i = 0; i < w->acc.size();) {
        auto& a = w->acc[i];
        if (a.tid == s.cur && a.off >= off && a.off + (u64)a.len <= off + n && (wr || !a.wr) && a.atomic == atomic) { w->acc[i] = w->acc.back(); w->acc.pop_back(); }
        else ++i;
    }
    w->acc.push_back({(u32)off, (u32)n, s.cur, vc[s.cur], wr, atomic, curIns});
}

bool Exec::access(State& s, const Val& p, u64 n, bool wr, const Obj*& o, u64& off, E& offE)
{
    offE = nullptr;
    u64 a = p.e ? (u64)C->eval(p.e, *s.model) : p.c;
    o = find(s, a);
    const char* rw = wr ? "write" : "read";
    if (!o) {
        if (a < 4096) report(s, "null-deref", std::string(rw) + " through null pointer");
        else report(s, "wild-pointer", std::string(rw) + " through invalid pointer " + hex(a));
        s.dead = true;
        return false;
    }
    if (o->freed) {
        report(s, o->kind == OK_STACK ? "use-after-return" : "use-after-free", std::string(rw) + " of freed memory");
        s.dead = true;
        return false;
    }
    off = a - o->addr;
    if (off > o->size || n > o->size - off) {
        report(s, "out-of-bounds", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)off) + " of an object of size " + std::to_string(o->size));
        s.dead = true;
        return false;
    }
    if (p.e) {
        E oe = C->bin(SUB, p.e, C->konst(o->addr, 64));
        E in = C->bin(ULE, oe, C->konst(o->size - n, 64));
        decide(s, in); // clone (out of bounds of this object) re-executes and is diagnosed above
        if (isc(oe)) off = (u64)oe->cv;
        else offE = oe;
    }
    if (wr && o->ro) {
        report(s, "write-to-const", "write to read-only object");
        s.dead = true;
        return false;
    }
    return true;
}

E Exec::byteE(State& s, const Obj* o, u64 off)
{
    uint8_t v;
    E e;
    if (o->getb(off, v, e)) return C->konst(v, 8);
    if (e == UNDEF) {
        E f = freshSym(s, "undef", 8, false);
        u64 id;
        addrToId(o->addr, id);
        s.h.wget(id)->sete(off, f);
        return f;
    }
    return e;
}

Val Exec::loadAt(State& s, const Obj* o, u64 off, unsigned w, unsigned bytes)
{
    unsigned k = off % PG;
    if (bytes <= 8 && k + bytes <= PG) {
        Page* p = o->pg[off / PG];
        if (p) {
            bool conc = true;
            if (p->nsym)
                for (unsigned i = 0; i < bytes; ++i) if (p->sym[k + i]) { conc = false; break; }
            if (conc) {
                u64 v = 0;
                memcpy(&v, p->b + k, bytes);
                return V(w >= 64 ? v : v & ((1ull << w) - 1));
            }
        }
    }
    E r = nullptr;
    u64 id;
    addrToId(o->addr, id);
    for (unsigned i = 0; i < bytes; ++i) {
        E b = byteE(s, s.h.get(id), off + i);
        r = r ? C->concat(b, r) : b;
    }
    if (r->w > w) r = C->extract(r, 0, w);
    if (isc(r) && w > 64) return Val{0, r};
    return VE(r);
}

void Exec::storeAt(State& s, u64 id, u64 off, const Val& v, unsigned w, unsigned bytes)
{
    Obj* o = s.h.wget(id);
    if (!v.e) {
        if (off % PG + bytes <= PG) {
            Page* p = o->wpage((unsigned)(off / PG));
            if (!p->nsym) {
                u64 c = v.c;
                if (bytes <= 8) memcpy(p->b + off % PG, &c, bytes);
                else { memcpy(p->b + off % PG, &c, 8); memset(p->b + off % PG + 8, 0, bytes - 8); }
                return;
            }
        }
        for (unsigned i = 0; i < bytes; ++i) o->setc(off + i, i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0);
        return;
    }
    E e = v.e;
    if (e->w < bytes * 8) e = C->zext(e, bytes * 8);
    for (unsigned i = 0; i < bytes; ++i) o->sete(off + i, C->extract(e, 8 * i, 8));
}

Val Exec::load(State& s, const Val& p, unsigned w, unsigned bytes)
{
    const Obj* o;
    u64 off;
    E offE;
    if (!access(s, p, bytes, false, o, off, offE)) return V(0);
    if (!offE) { touch(s, o, off, bytes, false, false); return loadAt(s, o, off, w, bytes); }
    u64 span = o->size - bytes, um = C->umax(offE);
    u64 hi = std::min(span, um);
    unsigned tz = C->tz(offE);
    if (tz > 20) tz = 20;
    if ((hi >> tz) > 4096) {
        u64 a = concretize(s, p, 64);
        return loadAt(s, o, a - o->addr, w, bytes);
    }
    touch(s, o, 0, o->size, false, false);
    u64 id;
    addrToId(o->addr, id);
    // binary decision tree over the offset bits
    std::function<E(u64, unsigned)> build = [&](u64 base, unsigned bit) -> E {
        if (base > hi) return nullptr;
        if (bit == tz) {
            E r = nullptr;
            for (unsigned i = 0; i < bytes; ++i) {
                E b = byteE(s, s.h.get(id), base + i);
                r = r ? C->concat(b, r) : b;
            }
            return r->w > w ? C->extract(r, 0, w) : r;
        }
        E lo = build(base, bit - 1), h = build(base + (1ull << (bit - 1)), bit - 1);
        if (!h) return lo;
        return C->ite(C->extract(offE, bit - 1, 1), h, lo);
    };
    unsigned bits = 0;
    while ((hi >> bits) != 0) bits++;
    if (bits < tz) bits = tz;
    E r = build(0, bits);
    if (isc(r) && w > 64) return Val{0, r};
    return VE(r);
}

void Exec::store(State& s, const Val& p, const Val& v, unsigned w, unsigned bytes)
{
    const Obj* o;
    u64 off;
    E offE;
    if (!access(s, p, bytes, true, o, off, offE)) return;
    u64 id;
    addrToId(o->addr, id);
    if (!offE) { touch(s, o, off, bytes, true, false); if (s.dead) return; storeAt(s, id, off, v, w, bytes); return; }
    u64 hi = std::min(o->size - bytes, C->umax(offE));
    unsigned tz = C->tz(offE);
    if (tz > 20) tz = 20;
    if ((hi >> tz) > 256) {
        u64 a = concretize(s, p, 64);
        storeAt(s, id, a - s.h.get(id)->addr, v, w, bytes);
        return;
    }
    touch(s, o, 0, o->size, true, false);
    E e = toE(v, w);
    if (e->w < bytes * 8) e = C->zext(e, bytes * 8);
    for (u64 b = 0; b <= hi; b += 1ull << tz) {
        E c = C->eq(offE, C->konst(b, 64));
        if (isc(c) && !c->cv) continue;
        for (unsigned i = 0; i < bytes; ++i) {
            E old = byteE(s, s.h.get(id), b + i);
            s.h.wget(id)->sete(b + i, C->ite(c, C->extract(e, 8 * i, 8), old));
        }
    }
}

u64 Exec::alloc(State& s, u64 size, ObjKind k, bool zero)
{
    Obj* o = s.h.alloc(size, k, zero);
    o->site = curIns;
    return o->addr;
}

void Exec::release(State& s, const Val& p, ObjKind k)
{
    u64 a = concretize(s, p, 64);
    if (!a) return;
    const Obj* o = find(s, a);
    if (!o || o->kind == OK_GLOBAL || o->kind == OK_STACK) { report(s, "bad-free", "free of a pointer that was not allocated"); s.dead = true; return; }
    if (o->freed) { report(s, "double-free", "memory freed twice"); s.dead = true; return; }
    if (o->addr != a) { report(s, "bad-free", "free of an interior pointer"); s.dead = true; return; }
    if (o->kind != k) { report(s, "alloc-dealloc-mismatch", "memory freed with the wrong deallocation function"); s.dead = true; return; }
    touch(s, o, 0, o->size, true, false);
    if (s.dead) return;
    u64 id;
    addrToId(a, id);
    Obj* w = s.h.wget(id);
    w->freed = true;
    w->drop();
}

void Exec::memcpy_(State& s, const Val& d, const Val& sr, const Val& n)
{
    u64 len = concretize(s, n, 64);
    if (len == 0) return;
    Val dv = d, sv = sr;
    if (dv.e) dv = V(concretize(s, dv, 64));
    if (sv.e) sv = V(concretize(s, sv, 64));
    const Obj *o, *p;
    u64 of, pf;
    E e1, e2;
    if (!access(s, sv, len, false, p, pf, e2)) return;
    if (!access(s, dv, len, true, o, of, e1)) return;
    touch(s, p, pf, len, false, false);
    if (s.dead) return;
    touch(s, o, of, len, true, false);
    if (s.dead) return;
    u64 did, sid;
    addrToId(dv.c, did);
    addrToId(sv.c, sid);
    std::vector<uint8_t> bv(len);
    std::vector<E> be(len);
    p = s.h.get(sid);
    for (u64 i = 0; i < len; ++i) p->getb(pf + i, bv[i], be[i]);
    Obj* w = s.h.wget(did);
    for (u64 i = 0; i < len; ++i) {
        if (be[i]) w->sete(of + i, be[i]);
        else w->setc(of + i, bv[i]);
    }
}

void Exec::memset_(State& s, const Val& d, const Val& b, const Val& n)
{
    u64 len = concretize(s, n, 64);
    if (len == 0) return;
    Val dv = d;
    if (dv.e) dv = V(concretize(s, dv, 64));
    const Obj* o;
    u64 of;
    E e1;
    if (!access(s, dv, len, true, o, of, e1)) return;
    touch(s, o, of, len, true, false);
    if (s.dead) return;
    u64 did;
    addrToId(dv.c, did);
    Obj* w = s.h.wget(did);
    for (u64 i = 0; i < len; ++i) {
        if (b.e) w->sete(of + i, C->extract(b.e, 0, 8));
        else w->setc(of + i, (uint8_t)b.c);
    }
}

u64 Exec::rdU64(State& s, u64 addr)
{
    Val v = load(s, V(addr), 64, 8);
    return s.dead ? 0 : concretize(s, v, 64);
}

// ------------------------------------------------------------------ exceptions
bool Exec::upcast(State& s, u64 ti, u64 target, u64 obj, u64& adj)
{
    if (ti == target) { adj = obj; return true; }
    u64 vt = rdU64(s, ti) - 16;
    if (vt == tiSi && tiSi) return upcast(s, rdU64(s, ti + 16), target, obj, adj);
    if (vt == tiVmi && tiVmi) {
        u64 fc = rdU64(s, ti + 16);
        u32 cnt = (u32)(fc >> 32);
        for (u32 i = 0; i < cnt; ++i) {
            u64 base = rdU64(s, ti + 24 + 16 * i);
            i64 of = (i64)rdU64(s, ti + 32 + 16 * i);
            bool virt = of & 1, pub = of & 2;
            i64 off = of >> 8;
            if (!pub) continue;
            if (virt) off = (i64)rdU64(s, rdU64(s, obj) + off);
            if (upcast(s, base, target, obj + off, adj)) return true;
        }
    }
    return false;
}

bool Exec::matchTI(State& s, u64 thrown, u64 catcher, u64 obj, u64& adj)
{
    if (catcher == 0 || thrown == catcher) { adj = obj; return true; }
    u64 vt = rdU64(s, thrown) - 16;
    if (vt == tiSi || vt == tiVmi || vt == tiClass) return upcast(s, thrown, catcher, obj, adj);
    return false;
}

// header layout (rt/cxa.cpp): type at exc-64, adjusted pointer at exc-32
void Exec::unwind(State& s, u64 exc, size_t top)
{
    Thread& t = s.th[s.cur];
    u64 ti = rdU64(s, exc - 64);
    // phase 1
    bool handled = false;
    for (size_t i = top; i-- > 0 && !handled;) {
        Frame& f = t.st[i];
        const Ins& I = f.fn->ins[f.pc];
        if (I.op != O_INVOKE) continue;
        for (auto& c : I.x->clauses) {
            u64 adj;
            if (c.first) { if (matchTI(s, ti, c.second, exc, adj)) { handled = true; break; } }
            else {
                bool any = false;
                for (u64 f2 : I.x->filters[c.second]) if (matchTI(s, ti, f2, exc, adj)) any = true;
                if (!any) { handled = true; break; }
            }
        }
    }
    if (!handled) {
        std::string nm = "?";
        u64 na = rdU64(s, ti + 8);
        if (auto it = gvAt.find(na); it != gvAt.end()) nm = demangle("_ZTI" + it->second->getName().substr(4).str());
        report(s, "uncaught-exception", "exception escapes: " + nm);
        s.dead = true;
        return;
    }
    for (size_t i = top; i-- > 0;) {
        while (t.st.size() > i + 1) popFrame(s);
        Frame& f = t.st[i];
        const Ins& I = f.fn->ins[f.pc];
        if (I.op != O_INVOKE) continue;
        u32 sel = 0;
        bool hit = false;
        for (auto& c : I.x->clauses) {
            u64 adj = exc;
            if (c.first) {
                if (matchTI(s, ti, c.second, exc, adj)) {
                    hit = true;
                    sel = (u32)((c.second - OBJ_BASE) >> SLOT_SHIFT) + 1;
                    if (!c.second) sel = 0x7fffffff;
                    u64 id;
                    addrToId(exc, id);
                    storeAt(s, id, exc - 32 - s.h.get(id)->addr, V(adj), 64, 8);
                    break;
                }
            } else {
                bool any = false;
                for (u64 f2 : I.x->filters[c.second]) if (matchTI(s, ti, f2, exc, adj)) any = true;
                if (!any) { hit = true; sel = (u32)-1; break; }
            }
        }
        if (hit || I.x->cleanup) {
            f.lpExc = exc;
            f.lpSel = sel;
            takeEdge(s, I.x->e1);
            return;
        }
    }
}

// ------------------------------------------------------------------ control
void Exec::takeEdge(State& s, const Edge& e)
{
    Frame& f = s.th[s.cur].st.back();
    if (e.copies.size() == 1) f.r[e.copies[0].first] = R(f, e.copies[0].second);
    else if (!e.copies.empty()) {
        Val tmp[16];
        std::vector<Val> big;
        Val* t = tmp;
        if (e.copies.size() > 16) { big.resize(e.copies.size()); t = big.data(); }
        for (size_t i = 0; i < e.copies.size(); ++i) t[i] = R(f, e.copies[i].second);
        for (size_t i = 0; i < e.copies.size(); ++i) f.r[e.copies[i].first] = t[i];
    }
    f.pc = e.to;
}

void Exec::pushFrame(State& s, Function* F, std::vector<Val>& args, const Ins* I)
{
    FnInfo* fi = info(F);
    Thread& t = s.th[s.cur];
    if (t.st.size() > 4000) { report(s, "stack-overflow", "call depth exceeds 4000 frames"); s.dead = true; return; }
    t.st.emplace_back();
    Frame& f = t.st.back();
    f.fn = fi;
    f.r.assign(fi->nslots, V(0));
    unsigned n = fi->nargs;
    if (args.size() < n) { incomplete(s, "call with too few arguments to " + F->getName().str()); s.dead = true; return; }
    for (unsigned i = 0; i < n; ++i) f.r[i] = args[i];
    if (F->isVarArg()) f.va.assign(args.begin() + n, args.end());
    if (I)
        for (auto& bv : I->x->byval) {
            u64 a = alloc(s, bv.second, OK_STACK);
            u64 id;
            addrToId(a, id);
            f.allocas.push_back((u32)id);
            memcpy_(s, V(a), f.r[bv.first], V(bv.second));
            s.th[s.cur].st.back().r[bv.first] = V(a);
        }
}

void Exec::popFrame(State& s)
{
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    for (u32 id : f.allocas) {
        Obj* o = s.h.wget(id);
        o->freed = true;
        o->drop();
        o->acc.clear();
    }
    t.st.pop_back();
}

void Exec::finishCall(State& s, const std::vector<Val>& rv)
{
    Frame& f = s.th[s.cur].st.back();
    const Ins& I = f.fn->ins[f.pc];
    if (I.dst >= 0)
        for (unsigned k = 0; k < I.x->retLeaves; ++k) f.r[I.dst + k] = k < rv.size() ? rv[k] : V(0);
    if (I.op == O_INVOKE) takeEdge(s, I.x->e0);
    else f.pc++;
}

void Exec::ret(State& s, std::vector<Val>& rv)
{
    popFrame(s);
    Thread& t = s.th[s.cur];
    if (!t.st.empty()) { finishCall(s, rv); return; }
    if (s.cur == 0) {
        if (!s.startup.empty()) {
            u32 fi = s.startup.back();
            s.startup.pop_back();
            std::vector<Val> none;
            pushFrame(s, fnAt[0x10000 + (u64)fi * 16], none, nullptr);
            return;
        }
        // program finished
        u64 n = ++SH->paths;
        if (n <= 3 || (n & (n - 1)) == 0) witness(s);
        else
            for (int c : s.cov) if (SH->covHit[c] == 1) { witness(s); break; }
        s.dead = true;
        return;
    }
    t.done = true;
    t.granted = false;
    schedule(s, 0, -2);
}

void Exec::call(State& s, const Ins& I, Function* F, std::vector<Val>& args)
{
    if (F->isDeclaration()) {
        incomplete(s, "call to external function " + demangle(F->getName().str()));
        s.dead = true;
        return;
    }
    pushFrame(s, F, args, &I);
}

// ------------------------------------------------------------------ threads
void Exec::acquire(State& s, u64 a)
{
    VC& v = s.th[s.cur].vc;
    auto it = s.mvc.find(a);
    if (it == s.mvc.end()) return;
    if (v.size() < it->second.size()) v.resize(it->second.size(), 0);
    for (size_t i = 0; i < it->second.size(); ++i) v[i] = std::max(v[i], it->second[i]);
}

void Exec::releaseVC(State& s, u64 a, bool rmw)
{
    VC& v = s.th[s.cur].vc;
    VC& m = s.mvc[a];
    if (rmw) {
        if (m.size() < v.size()) m.resize(v.size(), 0);
        for (size_t i = 0; i < v.size(); ++i) m[i] = std::max(m[i], v[i]);
    } else m = v;
    v[s.cur]++;
}

// Called before a visible operation.  Returns true when the current thread may
// perform it now; otherwise another thread has been switched to (or the state died).
bool Exec::schedule(State& s, u64 lockAddr, int join)
{
    if (s.th.size() < 2) {
        if (lockAddr && s.mown.count(lockAddr) && s.mown[lockAddr]) {
            report(s, "deadlock", "mutex locked again by the thread that owns it");
            s.dead = true;
            return false;
        }
        return true;
    }
    Thread& me = s.th[s.cur];
    if (join != -2 && me.granted) { me.granted = false; return true; }
    me.pendingLock = lockAddr;
    me.joinOn = join;
    auto enabled = [&](int i) {
        Thread& t = s.th[i];
        if (t.done) return false;
        if (t.pendingLock) { auto it = s.mown.find(t.pendingLock); if (it != s.mown.end() && it->second) return false; }
        if (t.joinOn >= 0 && !s.th[t.joinOn].done) return false;
        return true;
    };
    bool meOk = !me.done && enabled(s.cur);
    std::vector<int> ch;
    if (meOk) ch.push_back(s.cur);
    if (!meOk || s.preempt < s.maxPreempt)
        for (int i = 0; i < (int)s.th.size(); ++i) if (i != s.cur && enabled(i)) ch.push_back(i);
    if (ch.empty()) {
        bool alldone = true;
        for (auto& t : s.th) if (!t.done) alldone = false;
        if (!alldone) report(s, "deadlock", "no thread can make progress");
        s.dead = true;
        return false;
    }
    SH->schedPoints++;
    if (ch.size() == 1) {
        if (ch[0] != s.cur) s.cur = ch[0];
        s.th[s.cur].granted = s.th[s.cur].started;
        s.th[s.cur].started = true;
        if (ch[0] == (int)(&me - &s.th[0])) { s.th[s.cur].granted = false; return true; }
        return false;
    }
    int self = s.cur;
    E v = freshSym(s, "sched", 8, true);
    auto set = [&](State& x, int k) {
        E c = C->eq(v, C->konst(k, 8));
        auto m = std::make_shared<Model>(*x.model);
        u64 id = (u64)v->cv;
        if (m->size() <= id) m->resize(id + 1, 0);
        (*m)[id] = (u64)k;
        x.model = m;
        add(x, c);
        x.cur = k;
        if (k != self) {
            if (meOk) x.preempt++;
            x.th[k].granted = x.th[k].started;
            x.th[k].started = true;
        }
    };
    for (size_t i = 1; i < ch.size(); ++i) {
        State* n = clone(s);
        set(*n, ch[i]);
        work.push_back(n);
    }
    set(s, ch[0]);
    return ch[0] == self;
}

// ------------------------------------------------------------------ arithmetic
Val Exec::binop(State& s, unsigned op, unsigned w, const Val& a, const Val& b)
{
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, m = w >= 64 ? ~0ull : (1ull << w) - 1;
        switch (op) {
        case ADD: return V((x + y) & m);
        case SUB: return V((x - y) & m);
        case MUL: return V((x * y) & m);
        case AND: return V(x & y);
        case OR: return V(x | y);
        case XOR: return V(x ^ y);
        case SHL: return V(y >= w ? 0 : (x << y) & m);
        case LSHR: return V(y >= w ? 0 : x >> y);
        default: return V((u64)evalOp((K)op, w, w, x, y));
        }
    }
    E r = C->bin((K)op, toE(a, w), toE(b, w));
    if (w > 64) return Val{0, r};
    return VE(r);
}

static E icmpE(unsigned p, E a, E b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return C->eq(a, b);
    case CmpInst::ICMP_NE: return C->bnot(C->eq(a, b));
    case CmpInst::ICMP_ULT: return C->bin(ULT, a, b);
    case CmpInst::ICMP_ULE: return C->bin(ULE, a, b);
    case CmpInst::ICMP_UGT: return C->bin(ULT, b, a);
    case CmpInst::ICMP_UGE: return C->bin(ULE, b, a);
    case CmpInst::ICMP_SLT: return C->bin(SLT, a, b);
    case CmpInst::ICMP_SLE: return C->bin(SLE, a, b);
    case CmpInst::ICMP_SGT: return C->bin(SLT, b, a);
    case CmpInst::ICMP_SGE: return C->bin(SLE, b, a);
    }
    abort();
}

static E fcmpE(unsigned p, E a, E b)
{
    E uno = C->fpbin(FUNO, a, b), eq = C->fpbin(FEQ, a, b), lt = C->fpbin(FLT, a, b), le = C->fpbin(FLE, a, b);
    E gt = C->fpbin(FLT, b, a), ge = C->fpbin(FLE, b, a);
    auto OR_ = [](E x, E y) { return C->bin(OR, x, y); };
    switch (p) {
    case CmpInst::FCMP_FALSE: return C->fls();
    case CmpInst::FCMP_OEQ: return eq;
    case CmpInst::FCMP_OGT: return gt;
    case CmpInst::FCMP_OGE: return ge;
    case CmpInst::FCMP_OLT: return lt;
    case CmpInst::FCMP_OLE: return le;
    case CmpInst::FCMP_ONE: return OR_(lt, gt);
    case CmpInst::FCMP_ORD: return C->bnot(uno);
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return OR_(uno, eq);
    case CmpInst::FCMP_UGT: return OR_(uno, gt);
    case CmpInst::FCMP_UGE: return OR_(uno, ge);
    case CmpInst::FCMP_ULT: return OR_(uno, lt);
    case CmpInst::FCMP_ULE: return OR_(uno, le);
    case CmpInst::FCMP_UNE: return C->bnot(eq);
    default: return C->tru();
    }
}

static bool isAcq(unsigned o) { return o == (unsigned)AtomicOrdering::Acquire || o >= (unsigned)AtomicOrdering::AcquireRelease; }
static bool isRel(unsigned o) { return o == (unsigned)AtomicOrdering::Release || o >= (unsigned)AtomicOrdering::AcquireRelease; }

void Exec::step(State& s)
{
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    const Ins& I = f.fn->ins[f.pc];
    curIns = &I;
    switch (I.op) {
    case O_NOP: f.pc++; return;
    case O_COPY: f.r[I.dst] = R(f, I.a); f.pc++; return;
    case O_BIN: {
        const Val &a = R(f, I.a), &b = R(f, I.b);
        if (I.sub >= UDIV && I.sub <= SREM) {
            if (!b.e) {
                if (b.c == 0) { report(s, "div-by-zero", "division by zero"); s.dead = true; return; }
            } else {
                E z = C->eq(b.e, C->konst(0, I.w));
                if (decide(s, z)) { report(s, "div-by-zero", "division by zero"); s.dead = true; return; }
            }
        }
        f.r[I.dst] = binop(s, I.sub, I.w, a, b);
        f.pc++;
        return;
    }
    case O_ICMP: {
        const Val &a = R(f, I.a), &b = R(f, I.b);
        if (!a.e && !b.e) {
            u64 x = a.c, y = b.c;
            i64 sx = I.w >= 64 ? (i64)x : (i64)sxt(x, I.w), sy = I.w >= 64 ? (i64)y : (i64)sxt(y, I.w);
            bool r = false;
            switch (I.sub) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            }
            f.r[I.dst] = V(r);
        } else f.r[I.dst] = VE(icmpE(I.sub, toE(a, I.w), toE(b, I.w)));
        f.pc++;
        return;
    }
    case O_FBIN: {
        const Val &a = R(f, I.a), &b = R(f, I.b);
        if (I.w > 64) { incomplete(s, "long double arithmetic"); s.dead = true; return; }
        f.r[I.dst] = VE(C->fpbin((K)I.sub, toE(a, I.w), toE(b, I.w)));
        f.pc++;
        return;
    }
    case O_FCMP: {
        const Val &a = R(f, I.a), &b = R(f, I.b);
        if (I.w > 64) { incomplete(s, "long double arithmetic"); s.dead = true; return; }
        f.r[I.dst] = VE(fcmpE(I.sub, toE(a, I.w), toE(b, I.w)));
        f.pc++;
        return;
    }
    case O_FNEG: {
        const Val& a = R(f, I.a);
        f.r[I.dst] = VE(C->bin(XOR, toE(a, I.w), C->konst((u128)1 << (I.w - 1), I.w)));
        f.pc++;
        return;
    }
    case O_FPCVT: {
        const Val& a = R(f, I.a);
        if (I.w > 64 || I.w2 > 64) { incomplete(s, "long double arithmetic"); s.dead = true; return; }
        f.r[I.dst] = VE(C->fpcvt((K)I.sub, toE(a, I.w2), I.w));
        f.pc++;
        return;
    }
    case O_SELECT: {
        const Val& c = R(f, I.c);
        if (!c.e) { f.r[I.dst] = R(f, c.c ? I.a : I.b); f.pc++; return; }
        if (I.flag) {
            bool b = decide(s, c.e);
            f.r[I.dst] = R(f, b ? I.a : I.b);
        } else {
            E r = C->ite(c.e, toE(R(f, I.a), I.w), toE(R(f, I.b), I.w));
            f.r[I.dst] = I.w > 64 ? Val{0, r} : VE(r);
        }
        f.pc++;
        return;
    }
    case O_TRUNC: {
        const Val& a = R(f, I.a);
        if (!a.e) f.r[I.dst] = V(a.c & (u64)maskw(I.w));
        else { E r = C->extract(a.e, 0, I.w); f.r[I.dst] = I.w > 64 ? Val{0, r} : VE(r); }
        f.pc++;
        return;
    }
    case O_ZEXT: {
        const Val& a = R(f, I.a);
        if (!a.e && I.w <= 64) f.r[I.dst] = a;
        else { E r = C->zext(toE(a, I.w2), I.w); f.r[I.dst] = I.w > 64 ? Val{0, r} : VE(r); }
        f.pc++;
        return;
    }
    case O_SEXT: {
        const Val& a = R(f, I.a);
        if (!a.e && I.w <= 64) f.r[I.dst] = V((u64)sxt(a.c, I.w2) & (u64)maskw(I.w));
        else { E r = C->sext(toE(a, I.w2), I.w); f.r[I.dst] = I.w > 64 ? Val{0, r} : VE(r); }
        f.pc++;
        return;
    }
    case O_GEP: {
        Val p = R(f, I.a);
        if (I.imm) p = binop(s, ADD, 64, p, V((u64)I.imm));
        for (size_t k = 0; k < I.x->gep.size(); ++k) {
            Val ix = R(f, I.x->gep[k].first);
            unsigned w = I.x->gepw[k];
            if (!ix.e) ix = V((u64)sxt(ix.c, w));
            else ix = VE(w < 64 ? C->sext(ix.e, 64) : ix.e);
            i64 sc = I.x->gep[k].second;
            if (sc != 1) ix = binop(s, MUL, 64, ix, V((u64)sc));
            p = binop(s, ADD, 64, p, ix);
        }
        f.r[I.dst] = p;
        f.pc++;
        return;
    }
    case O_LOAD: {
        if (I.flag && !schedule(s, 0, -1)) return;
        Val p = R(f, I.a);
        auto& L = I.x->leaves;
        if (I.flag) {
            u64 a = concretize(s, p, 64);
            if (isAcq(I.sub)) acquire(s, a);
            const Obj* o; u64 off; E oe;
            if (!access(s, V(a), L[0].bytes, false, o, off, oe)) return;
            touch(s, o, off, L[0].bytes, false, true);
            if (s.dead) return;
            f.r[I.dst] = loadAt(s, o, off, L[0].w, L[0].bytes);
            f.pc++;
            return;
        }
        if (L.size() == 1) {
            Val v = load(s, p, L[0].w, L[0].bytes);
            if (s.dead) return;
            f.r[I.dst] = v;
        } else {
            std::vector<Val> tmp(L.size());
            for (size_t k = 0; k < L.size(); ++k) {
                tmp[k] = load(s, binop(s, ADD, 64, p, V(L[k].off)), L[k].w, L[k].bytes);
                if (s.dead) return;
            }
            for (size_t k = 0; k < L.size(); ++k) f.r[I.dst + k] = tmp[k];
        }
        f.pc++;
        return;
    }
    case O_STORE: {
        if (I.flag && !schedule(s, 0, -1)) return;
        Val p = R(f, I.a);
        auto& L = I.x->leaves;
        if (I.flag) {
            u64 a = concretize(s, p, 64);
            const Obj* o; u64 off; E oe;
            if (!access(s, V(a), L[0].bytes, true, o, off, oe)) return;
            touch(s, o, off, L[0].bytes, true, true);
            if (s.dead) return;
            u64 id;
            addrToId(a, id);
            if (s.th.size() > 1) { if (isRel(I.sub)) releaseVC(s, a, false); else s.mvc.erase(a); }
            storeAt(s, id, off, R(f, I.b), L[0].w, L[0].bytes);
            f.pc++;
            return;
        }
        if (L.size() > 1 && p.e) p = V(concretize(s, p, 64));
        for (size_t k = 0; k < L.size(); ++k) {
            Val v = R(f, leafOp(I.b, (unsigned)k));
            store(s, L[k].off ? binop(s, ADD, 64, p, V(L[k].off)) : p, v, L[k].w, L[k].bytes);
            if (s.dead) return;
        }
        f.pc++;
        return;
    }
    case O_RMW: {
        if (!schedule(s, 0, -1)) return;
        u64 a = concretize(s, R(f, I.a), 64);
        const Obj* o; u64 off; E oe;
        if (!access(s, V(a), I.w2, true, o, off, oe)) return;
        touch(s, o, off, I.w2, true, true);
        if (s.dead) return;
        u64 id;
        addrToId(a, id);
        if (s.th.size() > 1) { if (isAcq(I.flag)) acquire(s, a); if (isRel(I.flag)) releaseVC(s, a, true); }
        Val old = loadAt(s, s.h.get(id), off, I.w, I.w2), v = R(f, I.b), n;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = binop(s, ADD, I.w, old, v); break;
        case AtomicRMWInst::Sub: n = binop(s, SUB, I.w, old, v); break;
        case AtomicRMWInst::And: n = binop(s, AND, I.w, old, v); break;
        case AtomicRMWInst::Or: n = binop(s, OR, I.w, old, v); break;
        case AtomicRMWInst::Xor: n = binop(s, XOR, I.w, old, v); break;
        default: incomplete(s, "atomicrmw operation"); s.dead = true; return;
        }
        storeAt(s, id, off, n, I.w, I.w2);
        f.r[I.dst] = old;
        f.pc++;
        return;
    }
    case O_CMPXCHG: {
        if (!schedule(s, 0, -1)) return;
        u64 a = concretize(s, R(f, I.a), 64);
        const Obj* o; u64 off; E oe;
        if (!access(s, V(a), I.w2, true, o, off, oe)) return;
        touch(s, o, off, I.w2, true, true);
        if (s.dead) return;
        u64 id;
        addrToId(a, id);
        Val old = loadAt(s, s.h.get(id), off, I.w, I.w2);
        bool eq = decide(s, C->eq(toE(old, I.w), toE(R(f, I.b), I.w)));
        if (s.th.size() > 1) {
            if (isAcq(eq ? I.flag : I.sub)) acquire(s, a);
            if (eq && isRel(I.flag)) releaseVC(s, a, true);
        }
        if (eq) storeAt(s, id, off, R(f, I.c), I.w, I.w2);
        f.r[I.dst] = old;
        f.r[I.dst + 1] = V(eq);
        f.pc++;
        return;
    }
    case O_FENCE: f.pc++; return;
    case O_ALLOCA: {
        u64 n = concretize(s, R(f, I.a), I.w);
        u64 sz = n * (u64)I.imm;
        if (sz > MAX_OBJ) { incomplete(s, "huge alloca"); s.dead = true; return; }
        u64 a = alloc(s, sz, OK_STACK);
        u64 id;
        addrToId(a, id);
        f.allocas.push_back((u32)id);
        f.r[I.dst] = V(a);
        f.pc++;
        return;
    }
    case O_BR: takeEdge(s, I.x->e0); return;
    case O_CONDBR: {
        const Val& c = R(f, I.a);
        bool b = c.e ? decide(s, c.e) : c.c != 0;
        takeEdge(s, b ? I.x->e0 : I.x->e1);
        return;
    }
    case O_SWITCH: {
        const Val& v = R(f, I.a);
        u64 x = v.e ? (u64)C->eval(v.e, *s.model) : v.c;
        u32 tgt = 0;
        for (auto& c : I.x->cases) if (c.first == x) { tgt = c.second; break; }
        if (v.e) {
            E cond = C->fls(), any = C->fls();
            for (auto& c : I.x->cases) {
                E q = C->eq(v.e, C->konst(c.first, I.w));
                if (c.second == tgt) cond = C->bin(OR, cond, q);
                else any = C->bin(OR, any, q);
            }
            if (tgt == 0) cond = C->bnot(any);
            decide(s, cond);
        }
        takeEdge(s, I.x->edges[tgt]);
        return;
    }
    case O_RET: {
        std::vector<Val> rv;
        for (int a : I.x->args) rv.push_back(R(f, a));
        ret(s, rv);
        return;
    }
    case O_CALL: case O_INVOKE: {
        Function* F = I.x->callee;
        const Builtin* bi = I.x->bi;
        if (!F) {
            u64 a = concretize(s, R(f, I.a), 64);
            auto it = fnAt.find(a);
            if (it == fnAt.end()) {
                report(s, "wild-call", a == 0 ? "call through null function pointer" : "call through invalid function pointer " + hex(a));
                s.dead = true;
                return;
            }
            F = it->second;
            auto ib = builtins.find(F->getName().str());
            if (ib != builtins.end()) bi = &ib->second;
        }
        std::vector<Val> args;
        args.reserve(I.x->args.size());
        for (int a : I.x->args) args.push_back(R(f, a));
        if (bi) {
            Val rv[4] = {V(0), V(0), V(0), V(0)};
            s.handled = false;
            bi->fn(*this, s, I, args, rv);
            if (s.dead || s.handled) return;
            finishCall(s, std::vector<Val>(rv, rv + 4));
            return;
        }
        if (F->isIntrinsic()) {
            if (!intrinsic(s, I, args)) { if (!s.dead) { incomplete(s, "intrinsic " + F->getName().str()); s.dead = true; } }
            return;
        }
        call(s, I, F, args);
        return;
    }
    case O_UNREACH: report(s, "unreachable", "undefined behaviour: unreachable code executed"); s.dead = true; return;
    case O_LPAD: f.r[I.dst] = V(f.lpExc); f.r[I.dst + 1] = V(f.lpSel); f.pc++; return;
    case O_RESUME: {
        u64 exc = concretize(s, R(f, I.a), 64);
        unwind(s, exc, t.st.size() - 1);
        return;
    }
    default: {
        std::string str;
        raw_string_ostream os(str);
        I.I->print(os);
        incomplete(s, "unsupported instruction " + os.str());
        s.dead = true;
        return;
    }
    }
}

bool Exec::intrinsic(State& s, const Ins& I, std::vector<Val>& a)
{
    Frame& f = s.th[s.cur].st.back();
    unsigned id = I.x->callee ? I.x->callee->getIntrinsicID() : 0;
    unsigned w = I.w;
    auto done = [&](Val v) { f.r[I.dst] = v; if (I.op == O_INVOKE) takeEdge(s, I.x->e0); else f.pc++; return true; };
    auto doneV = [&]() { Frame& g = s.th[s.cur].st.back(); if (I.op == O_INVOKE) takeEdge(s, I.x->e0); else g.pc++; return true; };
    auto lanes = [&](std::function<Val(unsigned, unsigned)> fn) {
        unsigned n = I.x->retLeaves;
        std::vector<Val> r(n);
        for (unsigned k = 0; k < n; ++k) r[k] = fn(k, n);
        for (unsigned k = 0; k < n; ++k) f.r[I.dst + k] = r[k];
        f.pc++;
        return true;
    };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        if (I.x->argw[2] < 64 && a[2].e) a[2].e = C->zext(a[2].e, 64);
        memcpy_(s, a[0], a[1], a[2]);
        return !s.dead && doneV();
    case Intrinsic::memset:
        if (I.x->argw[2] < 64 && a[2].e) a[2].e = C->zext(a[2].e, 64);
        memset_(s, a[0], a[1], a[2]);
        return !s.dead && doneV();
    case Intrinsic::umin: return lanes([&](unsigned k, unsigned n) { E x = toE(a[k], w), y = toE(a[n + k], w); return VE(C->ite(C->bin(ULT, x, y), x, y)); });
    case Intrinsic::umax: return lanes([&](unsigned k, unsigned n) { E x = toE(a[k], w), y = toE(a[n + k], w); return VE(C->ite(C->bin(ULT, x, y), y, x)); });
    case Intrinsic::smin: return lanes([&](unsigned k, unsigned n) { E x = toE(a[k], w), y = toE(a[n + k], w); return VE(C->ite(C->bin(SLT, x, y), x, y)); });
    case Intrinsic::smax: return lanes([&](unsigned k, unsigned n) { E x = toE(a[k], w), y = toE(a[n + k], w); return VE(C->ite(C->bin(SLT, x, y), y, x)); });
    case Intrinsic::abs: { E x = toE(a[0], w); return done(VE(C->ite(C->bin(SLT, x, C->konst(0, w)), C->bin(SUB, C->konst(0, w), x), x))); }
    case Intrinsic::bswap: { E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { E b = C->extract(x, 8 * i, 8); r = r ? C->concat(r, b) : b; } return done(VE(r)); }
    case Intrinsic::bitreverse: { E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; ++i) { E b = C->extract(x, i, 1); r = r ? C->concat(r, b) : b; } return done(VE(r)); }
    case Intrinsic::ctpop: { E x = toE(a[0], w), r = C->konst(0, w); for (unsigned i = 0; i < w; ++i) r = C->bin(ADD, r, C->zextOrTrunc(C->extract(x, i, 1), w)); return done(VE(r)); }
    case Intrinsic::ctlz: { E x = toE(a[0], w), r = C->konst(w, w); for (unsigned i = 0; i < w; ++i) r = C->ite(C->extract(x, i, 1), C->konst(w - 1 - i, w), r); return done(VE(r)); }
    case Intrinsic::cttz: { E x = toE(a[0], w), r = C->konst(w, w); for (unsigned i = w; i-- > 0;) r = C->ite(C->extract(x, i, 1), C->konst(i, w), r); return done(VE(r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E x = toE(a[0], w), y = toE(a[1], w), z = C->bin(UREM, toE(a[2], w), C->konst(w, w));
        if (w * 2 > 128) return false;
        E cc = C->concat(x, y), zz = C->zext(z, 2 * w);
        if (id == Intrinsic::fshl) return done(VE(C->extract(C->bin(SHL, cc, zz), w, w)));
        return done(VE(C->extract(C->bin(LSHR, cc, zz), 0, w)));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned vw = I.x->retw[0];
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        K k = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? SUB : MUL;
        unsigned ew = k == MUL ? 2 * vw : vw + 1;
        E x = toE(a[0], vw), y = toE(a[1], vw);
        if (ew > 128) return false;
        E xx = sg ? C->sext(x, ew) : C->zext(x, ew), yy = sg ? C->sext(y, ew) : C->zext(y, ew);
        E full = C->bin(k, xx, yy), lo = C->bin(k, x, y);
        E back = sg ? C->sext(lo, ew) : C->zext(lo, ew);
        f.r[I.dst] = VE(lo);
        f.r[I.dst + 1] = VE(C->bnot(C->eq(full, back)));
        f.pc++;
        return true;
    }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), z = C->bin(ADD, x, y); return done(VE(C->ite(C->bin(ULT, z, x), C->konst(maskw(w), w), z))); }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); return done(VE(C->ite(C->bin(ULT, x, y), C->konst(0, w), C->bin(SUB, x, y)))); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
        return done(a[0]);
    case Intrinsic::is_constant: return done(V(0));
    case Intrinsic::objectsize: return done(V(~0ull & (u64)maskw(w)));
    case Intrinsic::eh_typeid_for: return done(V(a[0].c ? ((a[0].c - OBJ_BASE) >> SLOT_SHIFT) + 1 : 0x7fffffff));
    case Intrinsic::trap: report(s, "trap", "trap instruction executed"); s.dead = true; return true;
    case Intrinsic::ubsantrap: {
        static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi-check-fail", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"};
        std::string k = a[0].c < 25 ? nm[a[0].c] : std::to_string(a[0].c);
        report(s, "undefined-behaviour", "undefined behaviour: " + k);
        s.dead = true;
        return true;
    }
    case Intrinsic::threadlocal_address: {
        if (s.cur == 0) return done(a[0]);
        auto& m = s.th[s.cur].tls;
        auto it = m.find(a[0].c);
        if (it == m.end()) {
            const GlobalVariable* g = gvAt[a[0].c];
            Obj* o = s.h.alloc(find(s, a[0].c)->size, OK_GLOBAL, true);
            if (g->hasInitializer()) writeConst(o, 0, g->getInitializer());
            m[a[0].c] = o->addr;
            return done(V(o->addr));
        }
        return done(V(it->second));
    }
    case Intrinsic::stacksave: return done(V(0));
    case Intrinsic::fabs: return done(VE(C->bin(AND, toE(a[0], w), C->konst(maskw(w - 1), w))));
    case Intrinsic::copysign: return done(VE(C->bin(OR, C->bin(AND, toE(a[0], w), C->konst(maskw(w - 1), w)), C->bin(AND, toE(a[1], w), C->konst((u128)1 << (w - 1), w)))));
    case Intrinsic::fmuladd: return done(VE(C->fpbin(FADD, C->fpbin(FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w))));
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: {
        if (a[0].e) return false;
        if (w != 64) return false;
        double d;
        memcpy(&d, &a[0].c, 8);
        d = id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::trunc ? std::trunc(d) : std::rint(d);
        u64 x;
        memcpy(&x, &d, 8);
        return done(V(x));
    }
    case Intrinsic::is_fpclass: {
        E x = toE(a[0], I.x->argw[0]);
        unsigned fw = x->w, mask = (unsigned)a[1].c;
        unsigned mb = fw == 64 ? 52 : 23;
        E man = C->extract(x, 0, mb), ex = C->extract(x, mb, fw - 1 - mb), sg = C->extract(x, fw - 1, 1), q = C->extract(x, mb - 1, 1);
        E ez = C->eq(ex, C->konst(0, ex->w)), eo = C->eq(ex, C->konst(maskw(ex->w), ex->w)), mz = C->eq(man, C->konst(0, mb));
        auto AN = [](E p, E r) { return C->bin(AND, p, r); };
        E nz = C->bnot(mz), nsg = C->bnot(sg), norm = AN(C->bnot(ez), C->bnot(eo));
        E cls[10] = {AN(AN(eo, nz), C->bnot(q)), AN(AN(eo, nz), q), AN(AN(eo, mz), sg), AN(norm, sg), AN(AN(ez, nz), sg), AN(AN(ez, mz), sg), AN(AN(ez, mz), nsg), AN(AN(ez, nz), nsg), AN(norm, nsg), AN(AN(eo, mz), nsg)};
        E r = C->fls();
        for (int i = 0; i < 10; ++i) if (mask >> i & 1) r = C->bin(OR, r, cls[i]);
        return done(VE(r));
    }
    case Intrinsic::vastart: {
        // everything is passed in the overflow area
        u64 n = f.va.size();
        u64 area = alloc(s, n * 8 + 8, OK_STACK);
        u64 aid;
        addrToId(area, aid);
        Frame& g = s.th[s.cur].st.back();
        g.allocas.push_back((u32)aid);
        for (u64 i = 0; i < n; ++i) storeAt(s, aid, i * 8, g.va[i].e ? VE(C->zextOrTrunc(g.va[i].e, 64)) : g.va[i], 64, 8);
        u64 va = concretize(s, a[0], 64);
        store(s, V(va), V(48), 32, 4);
        store(s, V(va + 4), V(176), 32, 4);
        store(s, V(va + 8), V(area), 64, 8);
        store(s, V(va + 16), V(0), 64, 8);
        return doneV();
    }
    case Intrinsic::vacopy: memcpy_(s, a[0], a[1], V(24)); return !s.dead && doneV();
    default:
        return false;
    }
}
