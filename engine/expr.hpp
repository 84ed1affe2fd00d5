// Hash-consed bit-vector expressions (QF_BV + IEEE floating point terms), with
// local simplification, a concrete evaluator and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum K : uint8_t {
    CONST, SYM,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
    AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    // floating point (operands/results are IEEE bit patterns, w = 32 or 64)
    FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO,
    FPEXT, FPTRUNC, SITOFP, UITOFP, FPTOSI, FPTOUI
};

struct Expr {
    K k;
    uint16_t w;
    u32 id;
    u32 hash;
    u128 cv;       // CONST value; SYM: var id; EXTRACT: low bit
    const Expr *a, *b, *c;
    mutable Z3_ast z, zb;
    mutable u32 evgen;
    mutable u128 ev;
    mutable u32 visgen;
    mutable int maxbits; // cached upper bound on significant bits
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sxt(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct Var { std::string name; unsigned w; };
typedef std::vector<u64> Model; // value per variable id (missing = 0)

struct Ctx {
    Z3_context z3;
    std::vector<Var> vars;
    std::vector<E> varExpr;
    std::unordered_map<u64, std::vector<E>> table;
    size_t nexpr = 0;
    u32 gen = 0;
    Ctx();

    E konst(u128 v, unsigned w);
    E sym(const std::string& name, unsigned w);
    E bin(K k, E a, E b);
    E ite(E c, E a, E b);
    E extract(E a, unsigned lo, unsigned w);
    E concat(E hi, E lo);
    E zext(E a, unsigned w);
    E sext(E a, unsigned w);
    E zextOrTrunc(E a, unsigned w) { return a->w == w ? a : (a->w < w ? zext(a, w) : extract(a, 0, w)); }
    E bnot(E a) { return bin(XOR, a, konst(maskw(a->w), a->w)); }
    E eq(E a, E b) { return bin(EQ, a, b); }
    E fpcvt(K k, E a, unsigned w);
    E fpbin(K k, E a, E b);
    E tru() { return konst(1, 1); }
    E fls() { return konst(0, 1); }

    u128 eval(E e, const Model& m);       // memoised under a new generation
    void newEval() { ++gen; }
    u128 evalRec(E e, const Model& m);
    void support(E e, std::vector<u32>& out);

    Z3_ast bv(E e);
    Z3_ast boolean(E e);
    u64 umax(E e); // sound upper bound (saturated to 2^64-1)
    unsigned tz(E e); // sound lower bound on trailing zeros

private:
    E mk(K k, unsigned w, u128 cv, E a = nullptr, E b = nullptr, E c = nullptr);
    Z3_ast fp(E e);
    Z3_ast rc(Z3_ast x) { Z3_inc_ref(z3, x); return x; }
    u32 visgen = 0;
};
extern Ctx* C;
inline bool isc(E e) { return e->k == CONST; }
u128 evalOp(K k, unsigned w, unsigned aw, u128 a, u128 b);
std::string show(E e, int depth = 6);
