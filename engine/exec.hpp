#pragma once
#include "solver.hpp"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <deque>
#include <functional>
#include <set>

enum Op : uint8_t {
    O_BIN, O_ICMP, O_FBIN, O_FCMP, O_SELECT, O_LOAD, O_STORE, O_GEP, O_TRUNC, O_ZEXT, O_SEXT, O_FPCVT, O_COPY,
    O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_UNREACH, O_LPAD, O_RESUME, O_ALLOCA, O_RMW, O_CMPXCHG,
    O_FENCE, O_FNEG, O_NOP, O_UNSUP, O_EXTRELT
};

struct Leaf { unsigned w; unsigned off; unsigned bytes; bool ptr; };

struct Edge { u32 to = 0; std::vector<std::pair<int, int>> copies; };

u64 nowMs();
struct Exec;
struct Ins;
typedef void (*BFn)(Exec&, State&, const Ins&, std::vector<Val>&, Val*);
struct Builtin { BFn fn; bool visible = false; };

struct Aux {
    std::vector<Leaf> leaves;              // load/store
    std::vector<std::pair<int, i64>> gep;  // operand, scale
    std::vector<unsigned> gepw;
    std::vector<int> args;                 // flattened operands
    std::vector<unsigned> argw;
    std::vector<std::pair<unsigned, u64>> byval; // flattened arg index, size
    llvm::Function* callee = nullptr;
    const Builtin* bi = nullptr;
    Edge e0, e1;
    std::vector<std::pair<u64, u32>> cases; // value, edge index
    std::vector<Edge> edges;
    std::vector<std::pair<bool, u64>> clauses; // landingpad: (isCatch, typeinfo)
    std::vector<std::vector<u64>> filters;
    bool cleanup = false;
    u64 imm = 0;
    unsigned nfixed = 0;
    unsigned retLeaves = 0;
    std::vector<unsigned> retw;
    std::string text;
};

struct Ins {
    Op op;
    uint8_t sub = 0;
    uint8_t flag = 0;
    uint16_t w = 0, w2 = 0;
    int dst = -1, a = 0, b = 0, c = 0;
    i64 imm = 0;
    Aux* x = nullptr;
    const llvm::Instruction* I = nullptr;
};

struct FnInfo {
    llvm::Function* F;
    u32 idx;
    std::vector<Ins> ins;
    std::vector<Val> cp;
    unsigned nslots = 0;
    unsigned nargs = 0;
};

inline int leafOp(int op, unsigned i) { return op >= 0 ? op + (int)i : op - (int)i; }

struct Options {
    unsigned timeLimit = 600;
    unsigned jobs = 8;
    unsigned maxViol = 3;
    u64 maxSteps = 60000000; // per path
    std::string out = ".";
    std::string entry = "kls_harness";
    bool verbose = false;
};

struct Exec {
    llvm::Module& M;
    const llvm::DataLayout& DL;
    Solver S;
    Options opt;
    std::vector<State*> work;
    std::map<const llvm::Function*, FnInfo*> fns;
    std::map<const llvm::GlobalValue*, u64> gaddr;
    std::map<u64, llvm::Function*> fnAt;
    std::map<u64, const llvm::GlobalVariable*> gvAt;
    std::map<std::string, Builtin> builtins;
    std::map<u64, E> varCache;
    u64 tiClass = 0, tiSi = 0, tiVmi = 0, tiPtr = 0;
    std::map<u64, std::string> incompleteSeen;
    bool isWorker = false;
    const Ins* curIns = nullptr;

    explicit Exec(llvm::Module& m) : M(m), DL(m.getDataLayout()) {}

    // decode
    FnInfo* info(llvm::Function* F);
    void decode(FnInfo* f);
    void leaves(llvm::Type* T, std::vector<Leaf>& out, unsigned base = 0);
    unsigned width(llvm::Type* T);
    void constVals(const llvm::Constant* c, std::vector<Val>& out);
    u64 constU64(const llvm::Constant* c);
    void initGlobals(State& s);
    void writeConst(Obj* o, u64 off, const llvm::Constant* c);

    // primitives
    E freshSym(State& s, const std::string& name, unsigned w, bool input);
    bool decide(State& s, E cond);
    u64 concretize(State& s, const Val& v, unsigned w);
    bool mayBe(State& s, E cond, std::shared_ptr<const Model>& m);
    void add(State& s, E c);
    State* clone(State& s);
    void report(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
    void witness(State& s);
    void incomplete(State& s, const std::string& why);
    std::string where(State& s);
    std::string backtrace(State& s);

    // memory
    const Obj* find(State& s, u64 addr);
    bool access(State& s, const Val& p, u64 n, bool wr, const Obj*& o, u64& off, E& offE);
    Val load(State& s, const Val& p, unsigned w, unsigned bytes);
    void store(State& s, const Val& p, const Val& v, unsigned w, unsigned bytes);
    Val loadAt(State& s, const Obj* o, u64 off, unsigned w, unsigned bytes);
    void storeAt(State& s, u64 id, u64 off, const Val& v, unsigned w, unsigned bytes);
    E byteE(State& s, const Obj* o, u64 off); // materialises uninitialised bytes
    void touch(State& s, const Obj* o, u64 off, u64 n, bool wr, bool atomic);
    u64 alloc(State& s, u64 size, ObjKind k, bool zero = false);
    void release(State& s, const Val& p, ObjKind k);
    void memcpy_(State& s, const Val& d, const Val& sr, const Val& n);
    void memset_(State& s, const Val& d, const Val& b, const Val& n);

    // control
    void run();
    void step(State& s);
    void call(State& s, const Ins& I, llvm::Function* F, std::vector<Val>& args);
    void pushFrame(State& s, llvm::Function* F, std::vector<Val>& args, const Ins* I);
    void popFrame(State& s);
    void ret(State& s, std::vector<Val>& rv);
    void finishCall(State& s, const std::vector<Val>& rv);
    void takeEdge(State& s, const Edge& e);
    void unwind(State& s, u64 exc, size_t skip);
    bool matchTI(State& s, u64 thrown, u64 catcher, u64 obj, u64& adj);
    bool upcast(State& s, u64 ti, u64 target, u64 obj, u64& adj);
    u64 rdU64(State& s, u64 addr);
    bool intrinsic(State& s, const Ins& I, std::vector<Val>& a);
    Val binop(State& s, unsigned op, unsigned w, const Val& a, const Val& b);
    E val(const Val& v, unsigned w) { return toE(v, w); }
    void setupBuiltins();

    // threads
    bool schedule(State& s, u64 lockAddr, int join);
    void acquire(State& s, u64 a);
    void releaseVC(State& s, u64 a, bool rmw);
};
