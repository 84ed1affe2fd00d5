#include "expr.hpp"
#include <algorithm>
#include <cmath>

Ctx* C = nullptr;

static void z3err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

Ctx::Ctx()
{
    Z3_config cfg = Z3_mk_config();
    z3 = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(z3, z3err);
    Z3_set_ast_print_mode(z3, Z3_PRINT_SMTLIB2_COMPLIANT);
}

E Ctx::mk(K k, unsigned w, u128 cv, E a, E b, E c)
{
    u64 h = (u64)k * 0x9E3779B97F4A7C15ull ^ (u64)w * 0xC2B2AE3D27D4EB4Full ^ (u64)cv * 0x165667B19E3779F9ull ^
            (u64)(cv >> 64) * 0x27D4EB2F165667C5ull;
    h ^= (a ? (u64)a->id + 1 : 0) * 0xFF51AFD7ED558CCDull;
    h = (h << 13) | (h >> 51);
    h ^= (b ? (u64)b->id + 1 : 0) * 0xC4CEB9FE1A85EC53ull;
    h = (h << 17) | (h >> 47);
    h ^= (c ? (u64)c->id + 1 : 0) * 0x94D049BB133111EBull;
    h ^= h >> 29;
    auto& bucket = table[h];
    for (E e : bucket)
        if (e->k == k && e->w == w && e->cv == cv && e->a == a && e->b == b && e->c == c) return e;
    Expr* e = new Expr();
    e->k = k; e->w = w; e->id = ++nexpr; e->hash = (u32)h; e->cv = cv; e->a = a; e->b = b; e->c = c;
    e->z = e->zb = nullptr; e->evgen = 0; e->visgen = 0; e->maxbits = -1;
    bucket.push_back(e);
    return e;
}

E Ctx::konst(u128 v, unsigned w) { return mk(CONST, w, v & maskw(w)); }

E Ctx::sym(const std::string& name, unsigned w)
{
    vars.push_back({name, w});
    E e = mk(SYM, w, vars.size() - 1);
    varExpr.push_back(e);
    return e;
}

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 frD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 frF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u128 evalOp(K k, unsigned w, unsigned aw, u128 a, u128 b)
{
    u128 m = maskw(w);
    switch (k) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b == 0 ? m : (a / b) & m;
    case UREM: return b == 0 ? a : (a % b) & m;
    case SDIV: {
        i128 x = sxt(a, aw), y = sxt(b, aw);
        if (y == 0) return (x < 0 ? 1 : m);
        if (y == -1) return (u128)(-x) & m;
        return (u128)(x / y) & m;
    }
    case SREM: {
        i128 x = sxt(a, aw), y = sxt(b, aw);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: {
        i128 x = sxt(a, w);
        return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
    }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sxt(a, aw) < sxt(b, aw);
    case SLE: return sxt(a, aw) <= sxt(b, aw);
    case FADD: return w == 64 ? frD(asD(a) + asD(b)) : frF(asF(a) + asF(b));
    case FSUB: return w == 64 ? frD(asD(a) - asD(b)) : frF(asF(a) - asF(b));
    case FMUL: return w == 64 ? frD(asD(a) * asD(b)) : frF(asF(a) * asF(b));
    case FDIV: return w == 64 ? frD(asD(a) / asD(b)) : frF(asF(a) / asF(b));
    case FEQ: return aw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case FLT: return aw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case FLE: return aw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case FUNO: return aw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: break;
    }
    fprintf(stderr, "evalOp: bad kind %d\n", k);
    abort();
}

static u128 evalCvt(K k, unsigned w, unsigned aw, u128 a)
{
    switch (k) {
    case FPEXT: return frD((double)asF(a));
    case FPTRUNC: return frF((float)asD(a));
    case SITOFP: return w == 64 ? frD((double)sxt(a, aw)) : frF((float)sxt(a, aw));
    case UITOFP: return w == 64 ? frD((double)a) : frF((float)a);
    case FPTOSI: {
        double d = aw == 64 ? asD(a) : asF(a);
        if (!(d > -9.3e18 && d < 9.3e18)) return (u128)1 << (w - 1);
        return (u128)(i128)d & maskw(w);
    }
    case FPTOUI: {
        double d = aw == 64 ? asD(a) : asF(a);
        if (!(d > -1 && d < 1.9e19)) return maskw(w);
        return (u128)d & maskw(w);
    }
    default: abort();
    }
}

static bool commut(K k) { return k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ; }
static bool iscmp(K k) { return k >= EQ && k <= SLE; }

u64 Ctx::umax(E e)
{
    unsigned w = e->w;
    if (w > 64) return ~0ull;
    u64 full = (u64)maskw(w);
    if (e->k == CONST) return (u64)e->cv;
    if (e->maxbits >= 0) return e->maxbits >= 64 ? ~0ull : ((1ull << e->maxbits) - 1);
    u64 r = full;
    switch (e->k) {
    case ZEXT: r = umax(e->a); break;
    case AND: r = std::min(umax(e->a), umax(e->b)); break;
    case LSHR: if (isc(e->b) && e->b->cv < 64) r = umax(e->a) >> (unsigned)e->b->cv; break;
    case ITE: r = std::max(umax(e->b), umax(e->c)); break;
    case ADD: { u64 x = umax(e->a), y = umax(e->b); if (x + y >= x && x + y <= full) r = x + y; break; }
    case SHL: if (isc(e->b) && e->b->cv < 64) { u128 x = (u128)umax(e->a) << (unsigned)e->b->cv; if (x <= full) r = (u64)x; } break;
    case MUL: { u128 x = (u128)umax(e->a) * umax(e->b); if (x <= full) r = (u64)x; break; }
    case UREM: if (isc(e->b) && e->b->cv) r = std::min<u64>(umax(e->a), (u64)e->b->cv - 1); break;
    case UDIV: if (isc(e->b) && e->b->cv) r = umax(e->a) / (u64)e->b->cv; break;
    case OR: case XOR: r = umax(e->a) | umax(e->b); break;
    case CONCAT: { u64 h = umax(e->a); if (h == 0) r = umax(e->b); else r = (h << e->b->w) | (u64)maskw(e->b->w); break; }
    case EXTRACT: if (e->cv == 0) r = std::min(full, umax(e->a)); break;
    default: break;
    }
    int bits = 0;
    while (bits < 64 && (r >> bits)) bits++;
    e->maxbits = bits;
    return bits >= 64 ? ~0ull : ((1ull << bits) - 1);
}

unsigned Ctx::tz(E e)
{
    switch (e->k) {
    case CONST: { if (!e->cv) return e->w; unsigned n = 0; while (!((e->cv >> n) & 1)) n++; return n; }
    case SHL: return isc(e->b) && e->b->cv < e->w ? std::min<unsigned>(e->w, tz(e->a) + (unsigned)e->b->cv) : 0;
    case MUL: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b));
    case ADD: case SUB: case OR: case XOR: return std::min(tz(e->a), tz(e->b));
    case AND: return std::max(tz(e->a), tz(e->b));
    case ZEXT: case SEXT: return e->a->k == CONST ? 0 : tz(e->a);
    case ITE: return std::min(tz(e->b), tz(e->c));
    case CONCAT: { unsigned l = tz(e->b); return l < e->b->w ? l : e->b->w; }
    default: return 0;
    }
}

E Ctx::bin(K k, E a, E b)
{
    unsigned w = iscmp(k) ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "bin %d width mismatch %d %d\n", k, a->w, b->w); abort(); }
    if (isc(a) && isc(b)) return konst(evalOp(k, w, a->w, a->cv, b->cv), w);
    if (commut(k) && (isc(b) ? false : isc(a))) std::swap(a, b); // constant to the right
    else if (commut(k) && !isc(b) && a->id > b->id) std::swap(a, b);
    u128 full = maskw(a->w);
    bool bc = isc(b);
    u128 bv = bc ? b->cv : 0;
    switch (k) {
    case ADD:
        if (bc && bv == 0) return a;
        if (bc && a->k == ADD && isc(a->b)) return bin(ADD, a->a, konst(a->b->cv + bv, w));
        if (bc && a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(ADD, a->b, b), bin(ADD, a->c, b));
        if (a->k == SUB && a->b == b) return a->a;
        if (b->k == SUB && b->b == a) return b->a;
        // (x + c) + y -> (x + y) + c
        if (!bc && a->k == ADD && isc(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b);
        if (!bc && b->k == ADD && isc(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b);
        break;
    case SUB:
        if (a == b) return konst(0, w);
        if (bc) return bin(ADD, a, konst(0 - bv, w));
        if (a->k == ADD && a->a == b) return a->b;
        if (a->k == ADD && a->b == b) return a->a;
        if (a->k == ADD && isc(a->b)) return bin(ADD, bin(SUB, a->a, b), a->b);
        if (b->k == ADD && isc(b->b)) return bin(ADD, bin(SUB, a, b->a), konst(0 - b->b->cv, w));
        break;
    case MUL:
        if (bc && bv == 0) return b;
        if (bc && bv == 1) return a;
        if (bc && (bv & (bv - 1)) == 0) { unsigned n = 0; while ((bv >> n) != 1) n++; return bin(SHL, a, konst(n, w)); }
        if (bc && a->k == MUL && isc(a->b)) return bin(MUL, a->a, konst(a->b->cv * bv, w));
        break;
    case UDIV: if (bc && bv == 1) return a;
        if (bc && bv && (bv & (bv - 1)) == 0) { unsigned n = 0; while ((bv >> n) != 1) n++; return bin(LSHR, a, konst(n, w)); }
        break;
    case SDIV: if (bc && bv == 1) return a; break;
    case UREM: if (bc && bv == 1) return konst(0, w);
        if (bc && bv && (bv & (bv - 1)) == 0) return bin(AND, a, konst(bv - 1, w));
        if (bc && w <= 64 && umax(a) < bv) return a;
        break;
    case AND:
        if (bc && bv == 0) return b;
        if (bc && bv == full) return a;
        if (a == b) return a;
        if (bc && a->k == AND && isc(a->b)) return bin(AND, a->a, konst(a->b->cv & bv, w));
        if (bc && w <= 64) { u64 m = umax(a); if ((m & ~(u64)bv) == 0) return a; if ((m & (u64)bv) == 0) return konst(0, w); }
        if (bc && a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(AND, a->b, b), bin(AND, a->c, b));
        if (w == 1) { // x & !x
            if (a->k == XOR && isc(a->b) && a->a == b) return konst(0, 1);
            if (b->k == XOR && isc(b->b) && b->a == a) return konst(0, 1);
        }
        // low mask -> zext(extract)
        if (bc && w > 1 && bv && (bv & (bv + 1)) == 0) { unsigned n = 0; while (n < w && ((bv >> n) & 1)) n++; if (n < w) return zext(extract(a, 0, n), w); }
        break;
    case OR:
        if (bc && bv == 0) return a;
        if (bc && bv == full) return b;
        if (a == b) return a;
        if (bc && a->k == OR && isc(a->b)) return bin(OR, a->a, konst(a->b->cv | bv, w));
        if (bc && a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(OR, a->b, b), bin(OR, a->c, b));
        if (w == 1) {
            if (a->k == XOR && isc(a->b) && a->a == b) return konst(1, 1);
            if (b->k == XOR && isc(b->b) && b->a == a) return konst(1, 1);
        }
        // zext(x) | (y << n)  with x narrower than n  -> concat
        {
            E lo = nullptr, sh = nullptr;
            if (b->k == SHL && isc(b->b)) { sh = b; lo = a; } else if (a->k == SHL && isc(a->b)) { sh = a; lo = b; }
            if (sh && w <= 64 && sh->b->cv < w && sh->b->cv > 0) {
                unsigned n = (unsigned)sh->b->cv;
                if (umax(lo) <= (u64)maskw(n)) return concat(extract(sh->a, 0, w - n), extract(lo, 0, n));
            }
            sh = nullptr;
            // concat(hi,0) | zext(lo)
            if (b->k == CONCAT && isc(b->b) && b->b->cv == 0) { sh = b; lo = a; } else if (a->k == CONCAT && isc(a->b) && a->b->cv == 0) { sh = a; lo = b; }
            if (sh && w <= 64) {
                unsigned n = sh->b->w;
                if (umax(lo) <= (u64)maskw(n)) return concat(sh->a, extract(lo, 0, n));
            }
        }
        break;
    case XOR:
        if (bc && bv == 0) return a;
        if (a == b) return konst(0, w);
        if (bc && a->k == XOR && isc(a->b)) return bin(XOR, a->a, konst(a->b->cv ^ bv, w));
        if (w == 1 && bc) {
            if (a->k == ULT) return bin(ULE, a->b, a->a);
            if (a->k == ULE) return bin(ULT, a->b, a->a);
            if (a->k == SLT) return bin(SLE, a->b, a->a);
            if (a->k == SLE) return bin(SLT, a->b, a->a);
            if (a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, a->c, a->b);
        }
        break;
    case SHL:
        if (bc && bv == 0) return a;
        if (bc && bv >= w) return konst(0, w);
        if (bc && a->k == SHL && isc(a->b)) return bin(SHL, a->a, konst(std::min<u128>(w, a->b->cv + bv), w));
        if (bc) return concat(extract(a, 0, w - (unsigned)bv), konst(0, (unsigned)bv));
        break;
    case LSHR:
        if (bc && bv == 0) return a;
        if (bc && bv >= w) return konst(0, w);
        if (bc) return zext(extract(a, (unsigned)bv, w - (unsigned)bv), w);
        break;
    case ASHR:
        if (bc && bv == 0) return a;
        if (bc && bv < w) return sext(extract(a, (unsigned)bv, w - (unsigned)bv), w);
        break;
    case EQ:
        if (a == b) return konst(1, 1);
        if (a->w == 1 && bc) return bv ? a : bin(XOR, a, konst(1, 1));
        if (bc) {
            if (a->k == ZEXT) { if (bv >> a->a->w) return konst(0, 1); return eq(a->a, konst(bv, a->a->w)); }
            if (a->k == SEXT) { u128 t = bv & maskw(a->a->w); if (((u128)sxt(t, a->a->w) & full) != bv) return konst(0, 1); return eq(a->a, konst(t, a->a->w)); }
            if (a->k == ADD && isc(a->b)) return eq(a->a, konst(bv - a->b->cv, a->w));
            if (a->k == XOR && isc(a->b)) return eq(a->a, konst(bv ^ a->b->cv, a->w));
            if (a->k == SUB && isc(a->a)) return eq(a->b, konst(a->a->cv - bv, a->w));
            if (a->k == ITE) {
                bool bb = isc(a->b), cc = isc(a->c);
                if (bb && cc) {
                    bool x = a->b->cv == bv, y = a->c->cv == bv;
                    if (x && y) return konst(1, 1);
                    if (x) return a->a;
                    if (y) return bnot(a->a);
                    return konst(0, 1);
                }
                if (bb && a->b->cv != bv) return bin(AND, bnot(a->a), eq(a->c, b));
                if (cc && a->c->cv != bv) return bin(AND, a->a, eq(a->b, b));
                if (bb) return bin(OR, a->a, eq(a->c, b));
                if (cc) return bin(OR, bnot(a->a), eq(a->b, b));
            }
            if (a->k == CONCAT) {
                E h = eq(a->a, konst(bv >> a->b->w, a->a->w)), l = eq(a->b, konst(bv, a->b->w));
                return bin(AND, h, l);
            }
            if (a->w <= 64 && umax(a) < bv) return konst(0, 1);
        }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->k == ADD && b->k == ADD && isc(a->b) && a->b == b->b) return eq(a->a, b->a);
        if (a->k == ADD && isc(a->b) && a->a == b) return konst(0, 1);
        if (b->k == ADD && isc(b->b) && b->a == a) return konst(0, 1);
        break;
    case ULT:
        if (a == b) return konst(0, 1);
        if (bc && bv == 0) return konst(0, 1);
        if (bc && bv == 1) return eq(a, konst(0, a->w));
        if (isc(a) && a->cv == full) return konst(0, 1);
        if (isc(a) && a->cv == 0) return bnot(eq(b, a));
        if (a->w <= 64) { if (bc && umax(a) < bv) return konst(1, 1); if (isc(a) && umax(b) <= a->cv) return konst(0, 1); }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        if (a->k == ZEXT && bc) return (bv >> a->a->w) ? konst(1, 1) : bin(ULT, a->a, konst(bv, a->a->w));
        if (b->k == ZEXT && isc(a)) return (a->cv >> b->a->w) ? konst(0, 1) : bin(ULT, konst(a->cv, b->a->w), b->a);
        if (a->w == 1) return bin(AND, bnot(a), b);
        break;
    case ULE:
        if (a == b) return konst(1, 1);
        if (bc && bv == full) return konst(1, 1);
        if (bc) return bin(ULT, a, konst(bv + 1, a->w));
        if (isc(a) && a->cv == 0) return konst(1, 1);
        if (isc(a)) return bin(ULT, konst(a->cv - 1, a->w), b);
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        if (a->w == 1) return bin(OR, bnot(a), b);
        break;
    case SLT:
        if (a == b) return konst(0, 1);
        if (a->k == ZEXT && b->k == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return bin(ULT, zext(a->a, m), zext(b->a, m)); }
        if (a->k == ZEXT && bc) { if (sxt(bv, a->w) <= 0) return konst(0, 1); return bin(ULT, a, b); }
        if (b->k == ZEXT && isc(a)) { if (sxt(a->cv, a->w) < 0) return konst(1, 1); return bin(ULT, a, b); }
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return bin(SLT, a->a, b->a);
        if (a->k == SEXT && bc) {
            i128 v = sxt(bv, a->w), lo = -((i128)1 << (a->a->w - 1)), hi = ((i128)1 << (a->a->w - 1)) - 1;
            if (v <= lo) return konst(0, 1);
            if (v > hi) return konst(1, 1);
            return bin(SLT, a->a, konst((u128)v, a->a->w));
        }
        if (b->k == SEXT && isc(a)) {
            i128 v = sxt(a->cv, a->w), lo = -((i128)1 << (b->a->w - 1)), hi = ((i128)1 << (b->a->w - 1)) - 1;
            if (v >= hi) return konst(0, 1);
            if (v < lo) return konst(1, 1);
            return bin(SLT, konst((u128)v, b->a->w), b->a);
        }
        if (a->k == ITE && isc(a->b) && isc(a->c) && bc) return ite(a->a, bin(SLT, a->b, b), bin(SLT, a->c, b));
        break;
    case SLE:
        if (a == b) return konst(1, 1);
        if (bc) return bv == (maskw(a->w) >> 1) ? konst(1, 1) : bin(SLT, a, konst(bv + 1, a->w));
        if (isc(a)) return a->cv == (u128)1 << (a->w - 1) ? konst(1, 1) : bin(SLT, konst(a->cv - 1, a->w), b);
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return bin(SLE, a->a, b->a);
        break;
    default: break;
    }
    if ((k == ULT) && bc && a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    if ((k == ULT) && isc(a) && b->k == ITE && isc(b->b) && isc(b->c)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
    return mk(k, w, 0, a, b);
}

E Ctx::ite(E c, E a, E b)
{
    if (isc(c)) return c->cv ? a : b;
    if (a == b) return a;
    if (a->w != b->w) { fprintf(stderr, "ite width mismatch\n"); abort(); }
    if (c->k == XOR && isc(c->b)) return ite(c->a, b, a);
    if (a->w == 1) {
        if (isc(a) && isc(b)) return a->cv ? c : bnot(c);
        if (isc(a)) return a->cv ? bin(OR, c, b) : bin(AND, bnot(c), b);
        if (isc(b)) return b->cv ? bin(OR, bnot(c), a) : bin(AND, c, a);
    }
    if (a->k == ITE && a->a == c) a = a->b;
    if (b->k == ITE && b->a == c) b = b->c;
    if (a == b) return a;
    return mk(ITE, a->w, 0, c, a, b);
}

E Ctx::extract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "extract out of range %u+%u of %u\n", lo, w, a->w); abort(); }
    switch (a->k) {
    case CONST: return konst(a->cv >> lo, w);
    case EXTRACT: return extract(a->a, lo + (unsigned)a->cv, w);
    case CONCAT:
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return extract(a->b, lo, w);
        return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    case ZEXT:
        if (lo >= a->a->w) return konst(0, w);
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
        break;
    case ITE:
        if ((isc(a->b) || isc(a->c)) ) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
        break;
    case AND: case OR: case XOR:
        if (isc(a->b)) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        if (lo == 0 && w <= 8) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        break;
    case ADD: case SUB: case MUL:
        if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
        break;
    default: break;
    }
    return mk(EXTRACT, w, lo, a);
}

E Ctx::concat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isc(hi) && isc(lo)) return konst((hi->cv << lo->w) | lo->cv, w);
    if (isc(hi) && hi->cv == 0) return zext(lo, w);
    if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && (unsigned)hi->cv == (unsigned)lo->cv + lo->w)
        return extract(hi->a, (unsigned)lo->cv, w);
    // extract(x, n..) ++ x-low where lo is x itself truncated is covered by extract(x,0,..)
    if (hi->k == EXTRACT && lo->k == CONCAT && lo->a->k == EXTRACT && lo->a->a == hi->a &&
        (unsigned)hi->cv == (unsigned)lo->a->cv + lo->a->w)
        return concat(extract(hi->a, (unsigned)lo->a->cv, hi->w + lo->a->w), lo->b);
    if (hi->k == ZEXT && hi->a->k == EXTRACT && lo->k == EXTRACT && hi->a->a == lo->a && (unsigned)hi->a->cv == (unsigned)lo->cv + lo->w)
        return zext(extract(lo->a, (unsigned)lo->cv, hi->a->w + lo->w), w);
    if (hi->k == ZEXT && w <= 128) return zext(concat(hi->a, lo), w);
    if (hi->k == SEXT && hi->a->k == EXTRACT && lo->k == EXTRACT && hi->a->a == lo->a && (unsigned)hi->a->cv == (unsigned)lo->cv + lo->w)
        return sext(extract(lo->a, (unsigned)lo->cv, hi->a->w + lo->w), w);
    if (hi->k == ITE && lo->k == ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    if (hi->k == ITE && isc(hi->b) && isc(hi->c) && isc(lo)) return ite(hi->a, concat(hi->b, lo), concat(hi->c, lo));
    if (lo->k == ITE && isc(lo->b) && isc(lo->c) && isc(hi)) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->c));
    // right-assoc normal form: (a ++ b) ++ c -> a ++ (b ++ c)
    if (hi->k == CONCAT) return concat(hi->a, concat(hi->b, lo));
    return mk(CONCAT, w, 0, hi, lo);
}

E Ctx::zext(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isc(a)) return konst(a->cv, w);
    if (a->k == ZEXT) return zext(a->a, w);
    if (a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return mk(ZEXT, w, 0, a);
}

E Ctx::sext(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isc(a)) return konst((u128)sxt(a->cv, a->w), w);
    if (a->k == SEXT) return sext(a->a, w);
    if (a->k == ZEXT) return zext(a->a, w);
    if (a->k == ITE && isc(a->b) && isc(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return mk(SEXT, w, 0, a);
}

E Ctx::fpcvt(K k, E a, unsigned w)
{
    if (isc(a)) return konst(evalCvt(k, w, a->w, a->cv), w);
    return mk(k, w, 0, a);
}
E Ctx::fpbin(K k, E a, E b)
{
    bool cmp = k == FEQ || k == FLT || k == FLE || k == FUNO;
    if (isc(a) && isc(b)) return konst(evalOp(k, cmp ? 1 : a->w, a->w, a->cv, b->cv), cmp ? 1 : a->w);
    return mk(k, cmp ? 1 : a->w, 0, a, b);
}

u128 Ctx::eval(E e, const Model& m)
{
    ++gen;
    return evalRec(e, m);
}

u128 Ctx::evalRec(E e, const Model& m)
{
    if (e->k == CONST) return e->cv;
    if (e->evgen == gen) return e->ev;
    u128 r;
    switch (e->k) {
    case SYM: r = (u64)e->cv < m.size() ? m[(u64)e->cv] & maskw(e->w) : 0; break;
    case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case EXTRACT: r = (evalRec(e->a, m) >> (unsigned)e->cv) & maskw(e->w); break;
    case ZEXT: r = evalRec(e->a, m); break;
    case SEXT: r = (u128)sxt(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case FPEXT: case FPTRUNC: case SITOFP: case UITOFP: case FPTOSI: case FPTOUI:
        r = evalCvt(e->k, e->w, e->a->w, evalRec(e->a, m)); break;
    default: {
        u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
        r = evalOp(e->k, e->w, e->a->w, x, y);
    }
    }
    e->evgen = gen;
    e->ev = r;
    return r;
}

void Ctx::support(E e, std::vector<u32>& out)
{
    ++visgen;
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (x->visgen == visgen) continue;
        x->visgen = visgen;
        if (x->k == SYM) out.push_back((u32)x->cv);
        if (x->a) st.push_back(x->a);
        if (x->b) st.push_back(x->b);
        if (x->c) st.push_back(x->c);
    }
    std::sort(out.begin(), out.end());
}

static Z3_sort bvsort(unsigned w)
{
    static Z3_sort s[129];
    if (!s[w]) { s[w] = Z3_mk_bv_sort(C->z3, w); Z3_inc_ref(C->z3, Z3_sort_to_ast(C->z3, s[w])); }
    return s[w];
}
static Z3_sort fpsort(unsigned w)
{
    static Z3_sort s[2];
    int i = w == 64;
    if (!s[i]) { s[i] = w == 64 ? Z3_mk_fpa_sort_64(C->z3) : Z3_mk_fpa_sort_32(C->z3); Z3_inc_ref(C->z3, Z3_sort_to_ast(C->z3, s[i])); }
    return s[i];
}
static Z3_ast rne()
{
    static Z3_ast r;
    if (!r) { r = Z3_mk_fpa_rne(C->z3); Z3_inc_ref(C->z3, r); }
    return r;
}
static Z3_ast rtz()
{
    static Z3_ast r;
    if (!r) { r = Z3_mk_fpa_rtz(C->z3); Z3_inc_ref(C->z3, r); }
    return r;
}

Z3_ast Ctx::fp(E e) { return Z3_mk_fpa_to_fp_bv(z3, bv(e), fpsort(e->w)); }

Z3_ast Ctx::boolean(E e)
{
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->k) {
    case CONST: r = e->cv ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(z3, boolean(e->a), boolean(e->b)) : Z3_mk_eq(z3, bv(e->a), bv(e->b)); break;
    case ULT: r = Z3_mk_bvult(z3, bv(e->a), bv(e->b)); break;
    case ULE: r = Z3_mk_bvule(z3, bv(e->a), bv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(z3, bv(e->a), bv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(z3, bv(e->a), bv(e->b)); break;
    case FEQ: r = Z3_mk_fpa_eq(z3, fp(e->a), fp(e->b)); break;
    case FLT: r = Z3_mk_fpa_lt(z3, fp(e->a), fp(e->b)); break;
    case FLE: r = Z3_mk_fpa_leq(z3, fp(e->a), fp(e->b)); break;
    case FUNO: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(z3, fp(e->a)), Z3_mk_fpa_is_nan(z3, fp(e->b))}; r = Z3_mk_or(z3, 2, v); break; }
    case AND: { Z3_ast v[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(z3, 2, v); break; }
    case OR: { Z3_ast v[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(z3, 2, v); break; }
    case XOR: if (isc(e->b)) r = e->b->cv ? Z3_mk_not(z3, boolean(e->a)) : boolean(e->a); else r = Z3_mk_xor(z3, boolean(e->a), boolean(e->b)); break;
    case ITE: r = Z3_mk_ite(z3, boolean(e->a), boolean(e->b), boolean(e->c)); break;
    default: r = Z3_mk_eq(z3, bv(e), bv(konst(1, 1)));
    }
    e->zb = rc(r);
    return r;
}

Z3_ast Ctx::bv(E e)
{
    if (e->z) return e->z;
    Z3_ast r;
    if (e->w == 1 && (iscmp(e->k) || e->k == FEQ || e->k == FLT || e->k == FLE || e->k == FUNO || e->k == AND || e->k == OR || e->k == XOR)) {
        r = Z3_mk_ite(z3, boolean(e), bv(konst(1, 1)), bv(konst(0, 1)));
    } else
        switch (e->k) {
        case CONST:
            if (e->w <= 64) r = Z3_mk_unsigned_int64(z3, (u64)e->cv, bvsort(e->w));
            else r = Z3_mk_concat(z3, Z3_mk_unsigned_int64(z3, (u64)(e->cv >> 64), bvsort(e->w - 64)), Z3_mk_unsigned_int64(z3, (u64)e->cv, bvsort(64)));
            break;
        case SYM: r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, ("v" + std::to_string((u64)e->cv)).c_str()), bvsort(e->w)); break;
        case ADD: r = Z3_mk_bvadd(z3, bv(e->a), bv(e->b)); break;
        case SUB: r = Z3_mk_bvsub(z3, bv(e->a), bv(e->b)); break;
        case MUL: r = Z3_mk_bvmul(z3, bv(e->a), bv(e->b)); break;
        case UDIV: r = Z3_mk_bvudiv(z3, bv(e->a), bv(e->b)); break;
        case SDIV: r = Z3_mk_bvsdiv(z3, bv(e->a), bv(e->b)); break;
        case UREM: r = Z3_mk_bvurem(z3, bv(e->a), bv(e->b)); break;
        case SREM: r = Z3_mk_bvsrem(z3, bv(e->a), bv(e->b)); break;
        case AND: r = Z3_mk_bvand(z3, bv(e->a), bv(e->b)); break;
        case OR: r = Z3_mk_bvor(z3, bv(e->a), bv(e->b)); break;
        case XOR: r = Z3_mk_bvxor(z3, bv(e->a), bv(e->b)); break;
        case SHL: r = Z3_mk_bvshl(z3, bv(e->a), bv(e->b)); break;
        case LSHR: r = Z3_mk_bvlshr(z3, bv(e->a), bv(e->b)); break;
        case ASHR: r = Z3_mk_bvashr(z3, bv(e->a), bv(e->b)); break;
        case ITE: r = Z3_mk_ite(z3, boolean(e->a), bv(e->b), bv(e->c)); break;
        case CONCAT: r = Z3_mk_concat(z3, bv(e->a), bv(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(z3, (unsigned)e->cv + e->w - 1, (unsigned)e->cv, bv(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, bv(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, bv(e->a)); break;
        case FADD: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_add(z3, rne(), fp(e->a), fp(e->b))); break;
        case FSUB: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_sub(z3, rne(), fp(e->a), fp(e->b))); break;
        case FMUL: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_mul(z3, rne(), fp(e->a), fp(e->b))); break;
        case FDIV: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_div(z3, rne(), fp(e->a), fp(e->b))); break;
        case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_float(z3, rne(), fp(e->a), fpsort(e->w))); break;
        case SITOFP: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_signed(z3, rne(), bv(e->a), fpsort(e->w))); break;
        case UITOFP: r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_to_fp_unsigned(z3, rne(), bv(e->a), fpsort(e->w))); break;
        case FPTOSI: r = Z3_mk_fpa_to_sbv(z3, rtz(), fp(e->a), e->w); break;
        case FPTOUI: r = Z3_mk_fpa_to_ubv(z3, rtz(), fp(e->a), e->w); break;
        default: fprintf(stderr, "bv: bad kind\n"); abort();
        }
    e->z = rc(r);
    return r;
}

std::string show(E e, int depth)
{
    static const char* nm[] = {"const", "sym", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "f==", "f<", "f<=", "funo", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"};
    if (e->k == CONST) return std::to_string((u64)e->cv) + ":" + std::to_string(e->w);
    if (e->k == SYM) return C->vars[(u64)e->cv].name;
    if (depth == 0) return "...";
    std::string s = "(" + std::string(nm[e->k]);
    if (e->k == EXTRACT) s += "[" + std::to_string((u64)e->cv) + "+" + std::to_string(e->w) + "]";
    if (e->k == ZEXT || e->k == SEXT) s += std::to_string(e->w);
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, depth - 1);
    return s + ")";
}
