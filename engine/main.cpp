#include <signal.h>
// klsym: symbolic executor for LLVM IR.  Usage: klsym module.bc [options]
#include "exec.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
using namespace llvm;

u64 nowMs()
{
    using namespace std::chrono;
    return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
}

static std::string cstr(Exec& X, State& s, u64 a)
{
    std::string r;
    const Obj* o = X.find(s, a);
    if (!o) return r;
    for (u64 i = a - o->addr; i < o->size; ++i) {
        uint8_t v;
        E e;
        if (!o->getb(i, v, e) || !v) break;
        r += (char)v;
    }
    return r;
}

static u64 doAlloc(Exec& X, State& s, Val n, ObjKind k, bool& fail, bool zero = false)
{
    fail = false;
    u64 cap = s.allocLimit ? s.allocLimit : MAX_OBJ;
    if (n.e) {
        E big = C->bin(ULT, C->konst(cap, 64), n.e);
        if (X.decide(s, big)) {
            if (s.allocLimit) { X.report(s, "excessive-allocation", "allocation size exceeds the limit set by the harness"); s.dead = true; return 0; }
            fail = true;
            return 0;
        }
    } else if (n.c > cap) {
        if (s.allocLimit) { X.report(s, "excessive-allocation", "allocation size exceeds the limit set by the harness"); s.dead = true; return 0; }
        fail = true;
        return 0;
    }
    if (s.oom && s.oomLeft > 0) {
        E v = X.freshSym(s, "oom", 1, true);
        if (X.decide(s, v)) { s.oomLeft--; fail = true; return 0; }
    }
    u64 sz = X.concretize(s, n, 64);
    if (s.dead) return 0;
    return X.alloc(s, sz, k, zero);
}

void Exec::setupBuiltins()
{
    auto reg = [&](const char* n, BFn f, bool vis = false) { builtins[n] = Builtin{f, vis}; };
#define BI [](Exec& X, State& s, const Ins& I, std::vector<Val>& a, Val* r)
    // allocation
    reg("malloc", BI { bool f; u64 p = doAlloc(X, s, a[0], OK_MALLOC, f); r[0] = V(p); });
    reg("calloc", BI { bool f; u64 p = doAlloc(X, s, X.binop(s, MUL, 64, a[0], a[1]), OK_MALLOC, f, true); r[0] = V(p); });
    reg("realloc", BI {
        u64 old = X.concretize(s, a[0], 64);
        bool f;
        u64 sz = X.concretize(s, a[1], 64);
        u64 p = doAlloc(X, s, V(sz), OK_MALLOC, f);
        if (s.dead) return;
        if (old && p) {
            const Obj* o = X.find(s, old);
            if (!o || o->freed || o->addr != old) { X.report(s, "bad-free", "realloc of an invalid pointer"); s.dead = true; return; }
            X.memcpy_(s, V(p), V(old), V(std::min(o->size, sz)));
            X.release(s, V(old), OK_MALLOC);
        }
        r[0] = V(p);
    });
    reg("free", BI { X.release(s, a[0], OK_MALLOC); });
    static auto newImpl = [](Exec& X, State& s, const Ins& I, std::vector<Val>& a, Val* r, ObjKind k) {
        bool f;
        u64 p = doAlloc(X, s, a[0], k, f);
        if (s.dead) return;
        if (f) {
            Function* F = X.M.getFunction("kls_throw_bad_alloc");
            std::vector<Val> none;
            // the call instruction stays current; the callee never returns normally
            s.handled = true;
            X.pushFrame(s, F, none, nullptr);
            return;
        }
        r[0] = V(p);
    };
    reg("_Znwm", BI { newImpl(X, s, I, a, r, OK_NEW); });
    reg("_Znam", BI { newImpl(X, s, I, a, r, OK_NEWARR); });
    reg("_ZnwmSt11align_val_t", BI { newImpl(X, s, I, a, r, OK_NEW); });
    reg("_ZnwmRKSt9nothrow_t", BI { bool f; r[0] = V(doAlloc(X, s, a[0], OK_NEW, f)); });
    reg("_ZnamRKSt9nothrow_t", BI { bool f; r[0] = V(doAlloc(X, s, a[0], OK_NEWARR, f)); });
    for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, BI { X.release(s, a[0], OK_NEW); });
    for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) reg(n, BI { X.release(s, a[0], OK_NEWARR); });
    reg("kls_exc_alloc", BI { bool f; u64 lim = s.allocLimit; s.allocLimit = 0; r[0] = V(X.alloc(s, X.concretize(s, a[0], 64), OK_EXC, true)); s.allocLimit = lim; (void)f; });
    reg("kls_exc_free", BI { X.release(s, a[0], OK_EXC); });
    // memory
    reg("memcpy", BI { X.memcpy_(s, a[0], a[1], a[2]); r[0] = a[0]; });
    reg("memmove", BI { X.memcpy_(s, a[0], a[1], a[2]); r[0] = a[0]; });
    reg("memset", BI { X.memset_(s, a[0], V(a[1].c & 255), a[2]); if (a[1].e) X.memset_(s, a[0], VE(C->extract(a[1].e, 0, 8)), a[2]); r[0] = a[0]; });
    static auto cmp = [](Exec& X, State& s, const Ins& I, std::vector<Val>& a, Val* r, bool ord) {
        u64 n = X.concretize(s, a[2], 64);
        if (!n) { r[0] = V(0); return; }
        u64 p = X.concretize(s, a[0], 64), q = X.concretize(s, a[1], 64);
        const Obj *o1, *o2;
        u64 f1, f2;
        E e1, e2;
        if (!X.access(s, V(p), n, false, o1, f1, e1)) return;
        if (!X.access(s, V(q), n, false, o2, f2, e2)) return;
        X.touch(s, o1, f1, n, false, false);
        if (s.dead) return;
        X.touch(s, o2, f2, n, false, false);
        if (s.dead) return;
        E res = C->konst(0, 32);
        for (u64 i = n; i-- > 0;) {
            E x = X.byteE(s, X.find(s, p), f1 + i), y = X.byteE(s, X.find(s, q), f2 + i);
            E ne = ord ? C->ite(C->bin(ULT, x, y), C->konst(0xffffffff, 32), C->konst(1, 32)) : C->konst(1, 32);
            res = C->ite(C->eq(x, y), res, ne);
        }
        r[0] = VE(res);
    };
    reg("memcmp", BI { cmp(X, s, I, a, r, true); });
    reg("bcmp", BI { cmp(X, s, I, a, r, false); });
    // abnormal termination
    reg("abort", BI { X.report(s, "abort", "abort() called"); s.dead = true; });
    reg("__assert_fail", BI { X.report(s, "assertion-failed", "assertion failed: " + cstr(X, s, X.concretize(s, a[0], 64))); s.dead = true; });
    reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", BI { X.report(s, "library-precondition", "standard library precondition violated: " + cstr(X, s, X.concretize(s, a[3], 64))); s.dead = true; });
    reg("_ZSt9terminatev", BI { X.report(s, "terminate", "std::terminate() called"); s.dead = true; });
    reg("__cxa_pure_virtual", BI { X.report(s, "pure-virtual", "pure virtual function called"); s.dead = true; });
    reg("__cxa_call_unexpected", BI { X.report(s, "terminate", "exception specification violated"); s.dead = true; });
    reg("exit", BI { X.report(s, "exit", "exit() called"); s.dead = true; });
    reg("__cxa_atexit", BI { r[0] = V(0); });
    reg("__cxa_thread_atexit", BI { r[0] = V(0); });
    reg("atexit", BI { r[0] = V(0); });
    reg("kls_unwind", BI { s.handled = true; X.unwind(s, X.concretize(s, a[0], 64), s.th[s.cur].st.size()); });
    reg("kls_caught_get", BI { r[0] = V(s.th[s.cur].caught); });
    reg("kls_caught_set", BI { s.th[s.cur].caught = X.concretize(s, a[0], 64); });
    // harness interface
    reg("kls_sym", BI {
        std::string n = cstr(X, s, X.concretize(s, a[0], 64));
        unsigned w = (unsigned)a[1].c;
        E e = X.freshSym(s, n, w, true);
        r[0] = VE(C->zext(e, 64));
    });
    reg("kls_assume", BI {
        E c = C->bnot(C->eq(toE(a[0], 32), C->konst(0, 32)));
        if (isc(c)) { if (!c->cv) { SH->killedAssume++; s.dead = true; } return; }
        if (!C->eval(c, *s.model)) {
            std::shared_ptr<const Model> m;
            SR q = X.S.check(s, c, m);
            if (q == UNK_) X.incomplete(s, "solver timeout (assume)");
            if (q != SAT_) { SH->killedAssume++; s.dead = true; return; }
            s.model = m;
        }
        X.add(s, c);
    });
    reg("kls_assert", BI {
        E c = C->bnot(C->eq(toE(a[0], 32), C->konst(0, 32)));
        if (isc(c)) {
            SH->assertsConc++;
            if (!c->cv) { X.report(s, "property", cstr(X, s, X.concretize(s, a[1], 64))); s.dead = true; }
            return;
        }
        SH->assertsSym++;
        E nc = C->bnot(c);
        std::shared_ptr<const Model> m;
        if (!C->eval(c, *s.model)) { X.report(s, "property", cstr(X, s, X.concretize(s, a[1], 64))); s.dead = true; return; }
        SR q = X.S.check(s, nc, m);
        if (q == SAT_) {
            X.report(s, "property", cstr(X, s, X.concretize(s, a[1], 64)), m.get());
            X.add(s, c);
        } else if (q == UNK_) X.incomplete(s, "solver timeout (assert " + cstr(X, s, X.concretize(s, a[1], 64)) + ")");
    });
    reg("kls_cover", BI {
        std::string n = cstr(X, s, X.concretize(s, a[0], 64)).substr(0, 95);
        while (SH->covLock.exchange(1)) usleep(10);
        int k = SH->ncov.load(), i = 0;
        for (; i < k; ++i) if (n == SH->cov[i]) break;
        if (i == k && i < 256) { strcpy(SH->cov[i], n.c_str()); SH->ncov = i + 1; }
        SH->covLock = 0;
        if (i < 256) { SH->covHit[i]++; s.cov.push_back(i); }
    });
    reg("kls_concretize", BI { r[0] = V(X.concretize(s, a[0], 64)); });
    reg("kls_heap_objects", BI {
        u64 n = 0;
        for (u32 i = 0; i < s.h.next; ++i) {
            const Obj* o = s.h.get(i);
            if (o && !o->freed && (o->kind == OK_MALLOC || o->kind == OK_NEW || o->kind == OK_NEWARR || o->kind == OK_EXC)) n++;
        }
        r[0] = V(n);
    });
    reg("kls_alloc_limit", BI { s.allocLimit = X.concretize(s, a[0], 64); });
    reg("kls_oom", BI { s.oomLeft = (u32)X.concretize(s, a[0], 64); s.oom = s.oomLeft > 0; });
    reg("kls_is_symbolic", BI { r[0] = V(1); });
    reg("kls_trace", BI { if (X.opt.verbose) fprintf(stderr, "trace %s %llu%s\n", cstr(X, s, X.concretize(s, a[0], 64)).c_str(), (unsigned long long)a[1].c, a[1].e ? show(a[1].e).c_str() : ""); });
    reg("kls_valid", BI {
        // is [p, p+n) inside one live object?
        u64 p = X.concretize(s, a[0], 64), n = X.concretize(s, a[1], 64);
        const Obj* o = X.find(s, p);
        r[0] = V(o && !o->freed && p - o->addr <= o->size && n <= o->size - (p - o->addr));
    });
    // threads
    reg("kls_preemptions", BI { s.maxPreempt = (u32)X.concretize(s, a[0], 64); });
    reg("kls_thread", BI {
        u64 fn = X.concretize(s, a[0], 64);
        Thread nt;
        int id = (int)s.th.size();
        if (s.th.size() == 1) { s.th[0].started = true; s.th[0].vc.assign(1, 1); }
        nt.vc = s.th[s.cur].vc;
        nt.vc.resize(id + 1, 0);
        nt.vc[id] = 1;
        s.th[s.cur].vc[s.cur]++;
        Frame f;
        f.fn = X.info(X.fnAt.at(fn));
        f.r.assign(f.fn->nslots, V(0));
        if (f.fn->nargs) f.r[0] = a[1];
        nt.st.push_back(f);
        s.th.push_back(nt);
        for (auto& t : s.th) t.vc.resize(id + 1, 0);
        r[0] = V((u64)id);
    });
    reg("kls_join", BI {
        int id = (int)X.concretize(s, a[0], 64);
        if (!s.th[id].done) { if (!X.schedule(s, 0, id)) { s.handled = true; return; } }
        else s.th[s.cur].granted = false;
        VC &v = s.th[s.cur].vc, &w = s.th[id].vc;
        for (size_t i = 0; i < w.size(); ++i) v[i] = std::max(v[i], w[i]);
    });
    reg("kls_yield", BI { if (!X.schedule(s, 0, -1)) s.handled = true; });
    reg("kls_now", BI { r[0] = V(++s.now); }); // not a scheduling point
    reg("kls_tid", BI { r[0] = V((u64)s.cur); });
    reg("pthread_mutex_lock", BI {
        u64 m = X.concretize(s, a[0], 64);
        const Obj* o; u64 off; E oe;
        if (!X.access(s, V(m), 8, true, o, off, oe)) return;
        if (!X.schedule(s, m, -1)) { s.handled = true; return; }
        if (s.th.size() > 1) X.acquire(s, m);
        s.mown[m] = s.cur + 1;
        r[0] = V(0);
    });
    reg("pthread_mutex_trylock", BI {
        u64 m = X.concretize(s, a[0], 64);
        const Obj* o; u64 off; E oe;
        if (!X.access(s, V(m), 8, true, o, off, oe)) return;
        if (!X.schedule(s, 0, -1)) { s.handled = true; return; }
        auto it = s.mown.find(m);
        if (it != s.mown.end() && it->second) { r[0] = V(16); return; }
        if (s.th.size() > 1) X.acquire(s, m);
        s.mown[m] = s.cur + 1;
        r[0] = V(0);
    });
    reg("pthread_mutex_unlock", BI {
        u64 m = X.concretize(s, a[0], 64);
        const Obj* o; u64 off; E oe;
        if (!X.access(s, V(m), 8, true, o, off, oe)) return;
        auto it = s.mown.find(m);
        if (it == s.mown.end() || it->second != s.cur + 1) { X.report(s, "mutex-misuse", "mutex unlocked by a thread that does not own it"); s.dead = true; return; }
        if (!X.schedule(s, 0, -1)) { s.handled = true; return; }
        s.mown.erase(m);
        if (s.th.size() > 1) X.releaseVC(s, m, false);
        r[0] = V(0);
    });
    reg("kls_held_mutexes", BI { u64 n = 0; for (auto& m : s.mown) n += m.second != 0; r[0] = V(n); });
    reg("pthread_self", BI { r[0] = V((u64)s.cur + 1); });
    reg("printf", BI { r[0] = V(0); });
    reg("puts", BI { r[0] = V(0); });
#undef BI
}

static void worker(Exec& X, u64 deadline)
{
    State* cur = nullptr;
    u64 steps = 0, tick = 0;
    while (true) {
        if (!cur) {
            if (X.work.empty()) break;
            cur = X.work.back();
            X.work.pop_back();
        }
        for (int i = 0; i < 2000 && !cur->dead; ++i) { X.step(*cur); cur->steps++; steps++; }
        if (cur->steps > X.opt.maxSteps && !cur->dead) { X.report(*cur, "infinite", "does not end: instruction limit of one execution exceeded"); cur->dead = true; }
        u64 pl = cur->pc.size();
        if (pl > SH->maxPcLen) SH->maxPcLen = pl;
        if ((++tick & 15) == 0 || SH->stop) {
            if (SH->violations && !SH->stop && nowMs() > SH->firstViol + 15000) SH->stop = 1;
            if (SH->stop || nowMs() > deadline) {
                if (!SH->stop) X.incomplete(*cur, "time limit");
                else if (SH->violations == 0) X.incomplete(*cur, "stopped");
                SH->stop = 1;
                break;
            }
            if (C->nexpr > 20000000) { X.incomplete(*cur, "expression memory limit"); break; }
        }
        if (cur->dead) { delete cur; cur = nullptr; }
        if (X.work.size() >= 2 && SH->active.load() < (int)X.opt.jobs) {
            int a = SH->active.fetch_add(1);
            if (a >= (int)X.opt.jobs) SH->active.fetch_sub(1);
            else {
                SH->steps += steps;
                steps = 0;
                size_t half = X.work.size() / 2;
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0) {
                    // child: the older half
                    X.work.resize(half);
                    cur = nullptr;
                } else if (p > 0) {
                    X.work.erase(X.work.begin(), X.work.begin() + half);
                } else SH->active.fetch_sub(1);
            }
        }
    }
    SH->steps += steps;
    fflush(nullptr);
    _exit(0);
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; }
    return o;
}

int main(int argc, char** argv)
{
    if (!getenv("KLSYM_STACK")) {
        struct rlimit rl;
        getrlimit(RLIMIT_STACK, &rl);
        rl.rlim_cur = 2ull << 30;
        if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max;
        setrlimit(RLIMIT_STACK, &rl);
        setenv("KLSYM_STACK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    Options opt;
    std::string file;
    unsigned qto = 20000;
    std::string dump;
    u64 dumpMax = 50;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--time") opt.timeLimit = atoi(next().c_str());
        else if (a == "--jobs") opt.jobs = atoi(next().c_str());
        else if (a == "--out") opt.out = next();
        else if (a == "--entry") opt.entry = next();
        else if (a == "--max-viol") opt.maxViol = atoi(next().c_str());
        else if (a == "--query-ms") qto = atoi(next().c_str());
        else if (a == "--dump") dump = next();
        else if (a == "--dump-max") dumpMax = atoi(next().c_str());
        else if (a == "-v") opt.verbose = true;
        else file = a;
    }
    u64 t0 = nowMs();
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(file, err, ctx);
    if (!M) { err.print("klsym", errs()); return 3; }
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    C = new Ctx();
    Exec X(*M);
    X.opt = opt;
    X.S.timeoutMs = qto;
    X.S.dumpDir = dump;
    X.S.dumpMax = dumpMax;
    X.setupBuiltins();
    State* s = new State();
    s->model = std::make_shared<Model>();
    s->th.emplace_back();
    s->th[0].vc.assign(1, 1);
    s->th[0].started = true;
    X.initGlobals(*s);
    // startup list: global constructors, then the harness (reversed stack)
    std::vector<std::pair<u64, Function*>> ctors;
    if (GlobalVariable* gc = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& op : ca->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                if (auto* f = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Function* H = M->getFunction(opt.entry);
    if (!H) { fprintf(stderr, "klsym: no function %s\n", opt.entry.c_str()); return 3; }
    std::vector<Function*> seq;
    for (auto& c : ctors) seq.push_back(c.second);
    seq.push_back(H);
    for (size_t i = seq.size(); i-- > 1;) s->startup.push_back((u32)((X.gaddr[seq[i]] - 0x10000) / 16));
    std::vector<Val> none;
    X.pushFrame(*s, seq[0], none, nullptr);
    X.work.push_back(s);

    setpgid(0, 0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    SH->active = 1;
    u64 deadline = nowMs() + (u64)opt.timeLimit * 1000;
    fflush(nullptr);
    pid_t w = fork();
    if (w == 0) worker(X, deadline);
    bool crashed = false;
    while (true) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0) break;
        if (p == 0) {
            if (nowMs() > deadline + 25000 && !crashed) { signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); crashed = true; SH->incomplete++; }
            usleep(1000);
            continue;
        }
        SH->active.fetch_sub(1);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { crashed = true; SH->incomplete++; }
    }
    if (crashed) {
        FILE* o = fopen((opt.out + "/incomplete.txt").c_str(), "a");
        if (o) { fprintf(o, "worker process crashed\n"); fclose(o); }
    }
    u64 ms = nowMs() - t0;
    // functions of the repository that were executed
    std::set<std::string> repoFns;
    u64 nfn = 0;
    for (Function& F : *M) {
        u64 idx = (X.gaddr[&F] - 0x10000) / 16;
        if (idx >= 65536 || !SH->fnHit[idx]) continue;
        nfn++;
        for (auto& B : F)
            for (auto& I : B)
                for (const DILocation* d = I.getDebugLoc(); d; d = d->getInlinedAt()) {
                    std::string fn = d->getFilename().str();
                    if (fn.find("/repo/") == std::string::npos) continue;
                    if (auto* sp = d->getScope()->getSubprogram()) {
                        std::string t = sp->getName().str();
                        for (const DIScope* sc = sp->getScope(); sc; sc = sc->getScope()) {
                            if (isa<DIFile>(sc)) break;
                            std::string q = sc->getName().str();
                            size_t lt = q.find('<');
                            if (lt != std::string::npos) q = q.substr(0, lt);
                            if (isa<DINamespace>(sc) || isa<DICompositeType>(sc)) t = (q.empty() ? "(anon)" : q) + "::" + t;
                        }
                        { size_t lt = t.find('<'); if (lt != std::string::npos && lt > 8) t = t.substr(0, lt); }
                        repoFns.insert(sp->getFile()->getFilename().str().substr(sp->getFile()->getFilename().str().rfind("/repo/") == std::string::npos ? 0 : sp->getFile()->getFilename().str().rfind("/repo/") + 6) + ":" + t);
                    }
                }
    }
    FILE* o = fopen((opt.out + "/stats.json").c_str(), "w");
    fprintf(o, "{\"paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"asserts_symbolic\":%llu,\"asserts_concrete\":%llu,\"incomplete\":%llu,\"violations\":%llu,\"max_constraints\":%llu,\"concretizations\":%llu,\"sched_points\":%llu,\"wall_s\":%.3f,\"functions\":%llu,\n",
            (unsigned long long)SH->paths, (unsigned long long)SH->killedAssume, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->cacheHits, (unsigned long long)SH->modelHits, SH->solverUs / 1e6, (unsigned long long)SH->steps, (unsigned long long)SH->assertsSym, (unsigned long long)SH->assertsConc, (unsigned long long)SH->incomplete, (unsigned long long)SH->violations, (unsigned long long)SH->maxPcLen, (unsigned long long)SH->concretized, (unsigned long long)SH->schedPoints, ms / 1000.0, (unsigned long long)nfn);
    fprintf(o, "\"covers\":{");
    int nc = std::min(256, SH->ncov.load());
    std::map<std::string, u64> cov;
    for (int i = 0; i < nc; ++i) cov[SH->cov[i]] += SH->covHit[i];
    bool first = true;
    for (auto& c : cov) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(o, "},\n\"repo_functions\":[");
    first = true;
    for (auto& r : repoFns) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
    fprintf(o, "]}\n");
    fclose(o);
    fflush(nullptr);
    _exit(0);
}
