#include "exec.hpp"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
using namespace llvm;

unsigned Exec::width(Type* T)
{
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isX86_FP80Ty()) return 80;
    return 0;
}

void Exec::leaves(Type* T, std::vector<Leaf>& out, unsigned base)
{
    if (auto* st = dyn_cast<StructType>(T)) {
        const StructLayout* L = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), out, base + (unsigned)L->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(T)) {
        unsigned sz = (unsigned)DL.getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), out, base + i * sz);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        Type* et = vt->getElementType();
        unsigned bits = (unsigned)DL.getTypeSizeInBits(et);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) {
            if (bits % 8 == 0) leaves(et, out, base + i * bits / 8);
            else out.push_back({bits, base + i, 0, false}); // not loadable, register only
        }
        return;
    }
    if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
    unsigned w = width(T);
    out.push_back({w, base, (unsigned)DL.getTypeStoreSize(T), T->isPointerTy()});
}

u64 Exec::constU64(const Constant* c)
{
    std::vector<Val> v;
    constVals(c, v);
    if (v.size() != 1 || v[0].e) { errs() << "constU64: " << *c << "\n"; abort(); }
    return v[0].c;
}

void Exec::constVals(const Constant* c, std::vector<Val>& out)
{
    Type* T = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) { out.push_back(V(ci->getZExtValue())); return; }
        APInt a = ci->getValue();
        u128 v = ((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0);
        out.push_back(Val{0, C->konst(v, w)});
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (T->isX86_FP80Ty()) { out.push_back(Val{0, C->konst(0, 80)}); return; }
        out.push_back(V(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
        return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<Leaf> l;
        leaves(T, l);
        for (auto& x : l) out.push_back(x.w > 64 ? Val{0, C->konst(0, x.w)} : V(0));
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) constVals(cast<Constant>(ca->getOperand(i)), out);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out);
        return;
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) { errs() << "unknown global " << gv->getName() << "\n"; abort(); }
        out.push_back(V(it->second));
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(DL, off)) { errs() << "constgep " << *c << "\n"; abort(); }
            out.push_back(V(constU64(cast<Constant>(g->getPointerOperand())) + (u64)off.getSExtValue()));
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::Trunc: {
            u64 v = constU64(ce->getOperand(0));
            out.push_back(V(v & (u64)maskw(width(T))));
            return;
        }
        case Instruction::Add: out.push_back(V((constU64(ce->getOperand(0)) + constU64(ce->getOperand(1))) & (u64)maskw(width(T)))); return;
        case Instruction::Sub: out.push_back(V((constU64(ce->getOperand(0)) - constU64(ce->getOperand(1))) & (u64)maskw(width(T)))); return;
        case Instruction::Xor: out.push_back(V(constU64(ce->getOperand(0)) ^ constU64(ce->getOperand(1)))); return;
        case Instruction::ICmp: {
            u64 a = constU64(ce->getOperand(0)), b = constU64(ce->getOperand(1));
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: out.push_back(V(a == b)); return;
            case CmpInst::ICMP_NE: out.push_back(V(a != b)); return;
            case CmpInst::ICMP_ULT: out.push_back(V(a < b)); return;
            case CmpInst::ICMP_UGT: out.push_back(V(a > b)); return;
            default: break;
            }
            break;
        }
        default: break;
        }
    }
    errs() << "constVals: " << *c << "\n";
    abort();
}

void Exec::writeConst(Obj* o, u64 off, const Constant* c)
{
    Type* T = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return; // object starts zeroed
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        for (size_t i = 0; i < raw.size(); ++i) o->setc(off + i, (uint8_t)raw[i]);
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* L = DL.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(o, off + L->getElementOffset(i), cast<Constant>(cs->getOperand(i)));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 sz = DL.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(o, off + i * sz, cast<Constant>(ca->getOperand(i)));
        return;
    }
    if (auto* cv = dyn_cast<ConstantVector>(c)) {
        u64 sz = DL.getTypeAllocSize(cv->getType()->getElementType());
        for (unsigned i = 0; i < cv->getNumOperands(); ++i) writeConst(o, off + i * sz, cast<Constant>(cv->getOperand(i)));
        return;
    }
    std::vector<Val> v;
    constVals(c, v);
    unsigned bytes = (unsigned)DL.getTypeStoreSize(T);
    u128 x = v[0].e ? v[0].e->cv : v[0].c;
    for (unsigned i = 0; i < bytes; ++i) o->setc(off + i, (uint8_t)(x >> (8 * i)));
}

void Exec::initGlobals(State& s)
{
    u64 fa = 0x10000;
    for (Function& F : M) {
        gaddr[&F] = fa;
        fnAt[fa] = &F;
        fa += 16;
    }
    std::vector<std::pair<GlobalVariable*, u64>> gs;
    for (GlobalVariable& G : M.globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 64;
        if (!G.hasInitializer() && sz < 64) sz = 64;
        if (sz > MAX_OBJ) { errs() << "global too big " << G.getName() << "\n"; abort(); }
        Obj* o = s.h.alloc(sz, OK_GLOBAL, true);
        gaddr[&G] = o->addr;
        gvAt[o->addr] = &G;
        gs.push_back({&G, (o->addr - OBJ_BASE) >> SLOT_SHIFT});
        if (!G.hasInitializer() && opt.verbose) errs() << "external global " << G.getName() << "\n";
    }
    for (auto& g : gs)
        if (g.first->hasInitializer()) writeConst(s.h.wget(g.second), 0, g.first->getInitializer());
    for (auto& g : gs)
        if (g.first->isConstant()) s.h.wget(g.second)->ro = true;
    auto ti = [&](const char* n) -> u64 { auto* g = M.getNamedValue(n); return g ? gaddr[g] : 0; };
    tiClass = ti("_ZTVN10__cxxabiv117__class_type_infoE");
    tiSi = ti("_ZTVN10__cxxabiv120__si_class_type_infoE");
    tiVmi = ti("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    tiPtr = ti("_ZTVN10__cxxabiv119__pointer_type_infoE");
}

FnInfo* Exec::info(Function* F)
{
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    FnInfo* f = new FnInfo();
    f->F = F;
    f->idx = (u32)((gaddr[F] - 0x10000) / 16);
    fns[F] = f;
    decode(f);
    if (f->idx < 65536) SH->fnHit[f->idx] = 1;
    return f;
}

void Exec::decode(FnInfo* f)
{
    Function& F = *f->F;
    std::map<const Value*, int> slot;
    std::map<const Value*, int> cslot;
    auto nleaves = [&](Type* T) { std::vector<Leaf> l; leaves(T, l); return (unsigned)l.size(); };
    int ns = 0;
    for (Argument& A : F.args()) { slot[&A] = ns; ns += nleaves(A.getType()); }
    f->nargs = ns;
    for (BasicBlock& B : F)
        for (Instruction& I : B)
            if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nleaves(I.getType()); }
    f->nslots = ns;

    auto opnd = [&](Value* v) -> int {
        auto it = slot.find(v);
        if (it != slot.end()) return it->second;
        auto ic = cslot.find(v);
        if (ic != cslot.end()) return ic->second;
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<Val> o;
            constVals(c, o);
            int base = ~(int)f->cp.size();
            for (auto& x : o) f->cp.push_back(x);
            if (o.empty()) f->cp.push_back(V(0));
            cslot[v] = base;
            return base;
        }
        return ~0; // metadata etc.
    };
    f->cp.push_back(V(0));

    std::map<const BasicBlock*, u32> start;
    struct Fix { Edge* e; const BasicBlock* from; const BasicBlock* to; };
    std::vector<Fix> fixes;
    auto edge = [&](Edge& e, const BasicBlock* from, const BasicBlock* to) { fixes.push_back({&e, from, to}); };

    for (BasicBlock& B : F) {
        start[&B] = (u32)f->ins.size();
        for (Instruction& I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Ins n;
            n.I = &I;
            n.op = O_UNSUP;
            if (!I.getType()->isVoidTy()) n.dst = slot[&I];
            auto push = [&](Ins& x) { f->ins.push_back(x); };
            std::vector<Leaf> rl;
            leaves(I.getType(), rl);
            if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                int a = opnd(bo->getOperand(0)), b = opnd(bo->getOperand(1));
                bool fp = I.getType()->isFPOrFPVectorTy();
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n;
                    m.op = fp ? O_FBIN : O_BIN;
                    m.w = rl[k].w; m.dst = n.dst + k; m.a = leafOp(a, k); m.b = leafOp(b, k);
                    switch (bo->getOpcode()) {
                    case Instruction::Add: m.sub = ADD; break;
                    case Instruction::Sub: m.sub = SUB; break;
                    case Instruction::Mul: m.sub = MUL; break;
                    case Instruction::UDiv: m.sub = UDIV; break;
                    case Instruction::SDiv: m.sub = SDIV; break;
                    case Instruction::URem: m.sub = UREM; break;
                    case Instruction::SRem: m.sub = SREM; break;
                    case Instruction::And: m.sub = AND; break;
                    case Instruction::Or: m.sub = OR; break;
                    case Instruction::Xor: m.sub = XOR; break;
                    case Instruction::Shl: m.sub = SHL; break;
                    case Instruction::LShr: m.sub = LSHR; break;
                    case Instruction::AShr: m.sub = ASHR; break;
                    case Instruction::FAdd: m.sub = FADD; break;
                    case Instruction::FSub: m.sub = FSUB; break;
                    case Instruction::FMul: m.sub = FMUL; break;
                    case Instruction::FDiv: m.sub = FDIV; break;
                    default: m.op = O_UNSUP;
                    }
                    push(m);
                }
                continue;
            }
            if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                int a = opnd(ic->getOperand(0)), b = opnd(ic->getOperand(1));
                std::vector<Leaf> ol;
                leaves(ic->getOperand(0)->getType(), ol);
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n;
                    m.op = O_ICMP; m.w = ol[k].w; m.dst = n.dst + k; m.a = leafOp(a, k); m.b = leafOp(b, k);
                    m.sub = ic->getPredicate();
                    push(m);
                }
                continue;
            }
            if (auto* fc = dyn_cast<FCmpInst>(&I)) {
                int a = opnd(fc->getOperand(0)), b = opnd(fc->getOperand(1));
                std::vector<Leaf> ol;
                leaves(fc->getOperand(0)->getType(), ol);
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n;
                    m.op = O_FCMP; m.w = ol[k].w; m.dst = n.dst + k; m.a = leafOp(a, k); m.b = leafOp(b, k);
                    m.sub = fc->getPredicate();
                    push(m);
                }
                continue;
            }
            if (auto* si = dyn_cast<SelectInst>(&I)) {
                int c = opnd(si->getCondition()), a = opnd(si->getTrueValue()), b = opnd(si->getFalseValue());
                bool vc = si->getCondition()->getType()->isVectorTy();
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n;
                    m.op = O_SELECT; m.w = rl[k].w; m.dst = n.dst + k; m.c = vc ? leafOp(c, k) : c;
                    m.a = leafOp(a, k); m.b = leafOp(b, k); m.flag = rl[k].ptr;
                    push(m);
                }
                continue;
            }
            if (auto* li = dyn_cast<LoadInst>(&I)) {
                n.op = O_LOAD; n.a = opnd(li->getPointerOperand());
                n.flag = li->isAtomic() ? 1 : 0; n.sub = (uint8_t)li->getOrdering();
                n.x = new Aux(); n.x->leaves = rl;
                n.imm = (i64)DL.getTypeStoreSize(I.getType());
                for (auto& l : rl) if (!l.bytes) n.op = O_UNSUP;
                push(n);
                continue;
            }
            if (auto* si = dyn_cast<StoreInst>(&I)) {
                n.op = O_STORE; n.a = opnd(si->getPointerOperand()); n.b = opnd(si->getValueOperand());
                n.flag = si->isAtomic() ? 1 : 0; n.sub = (uint8_t)si->getOrdering();
                n.x = new Aux(); leaves(si->getValueOperand()->getType(), n.x->leaves);
                n.imm = (i64)DL.getTypeStoreSize(si->getValueOperand()->getType());
                for (auto& l : n.x->leaves) if (!l.bytes) n.op = O_UNSUP;
                push(n);
                continue;
            }
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                if (rl.size() != 1) { push(n); continue; }
                n.op = O_GEP; n.a = opnd(g->getPointerOperand()); n.imm = 0;
                n.x = new Aux();
                for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
                    Value* ix = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        n.imm += (i64)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        continue;
                    }
                    i64 sz = (i64)DL.getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix)) { n.imm += ci->getSExtValue() * sz; continue; }
                    n.x->gep.push_back({opnd(ix), sz});
                    n.x->gepw.push_back(width(ix->getType()));
                }
                push(n);
                continue;
            }
            if (auto* ca = dyn_cast<CastInst>(&I)) {
                int a = opnd(ca->getOperand(0));
                std::vector<Leaf> ol;
                leaves(ca->getOperand(0)->getType(), ol);
                if (ol.size() != rl.size()) {
                    // vector <-> integer bitcast
                    push(n);
                    continue;
                }
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n;
                    m.dst = n.dst + k; m.a = leafOp(a, k); m.w = rl[k].w; m.w2 = ol[k].w;
                    switch (ca->getOpcode()) {
                    case Instruction::Trunc: m.op = O_TRUNC; break;
                    case Instruction::ZExt: m.op = O_ZEXT; break;
                    case Instruction::SExt: m.op = O_SEXT; break;
                    case Instruction::BitCast: case Instruction::AddrSpaceCast: m.op = O_COPY; if (m.w != m.w2) m.op = O_UNSUP; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: m.op = m.w == m.w2 ? O_COPY : m.w < m.w2 ? O_TRUNC : O_ZEXT; break;
                    case Instruction::FPExt: m.op = O_FPCVT; m.sub = FPEXT; break;
                    case Instruction::FPTrunc: m.op = O_FPCVT; m.sub = FPTRUNC; break;
                    case Instruction::SIToFP: m.op = O_FPCVT; m.sub = SITOFP; break;
                    case Instruction::UIToFP: m.op = O_FPCVT; m.sub = UITOFP; break;
                    case Instruction::FPToSI: m.op = O_FPCVT; m.sub = FPTOSI; break;
                    case Instruction::FPToUI: m.op = O_FPCVT; m.sub = FPTOUI; break;
                    default: m.op = O_UNSUP;
                    }
                    push(m);
                }
                continue;
            }
            if (isa<FreezeInst>(&I)) {
                int a = opnd(I.getOperand(0));
                for (unsigned k = 0; k < rl.size(); ++k) { Ins m = n; m.op = O_COPY; m.dst = n.dst + k; m.a = leafOp(a, k); push(m); }
                continue;
            }
            if (auto* u = dyn_cast<UnaryOperator>(&I)) {
                int a = opnd(u->getOperand(0));
                for (unsigned k = 0; k < rl.size(); ++k) { Ins m = n; m.op = O_FNEG; m.w = rl[k].w; m.dst = n.dst + k; m.a = leafOp(a, k); push(m); }
                continue;
            }
            auto aggOff = [&](Type* T, ArrayRef<unsigned> ix) {
                unsigned o = 0;
                for (unsigned i : ix) {
                    if (auto* st = dyn_cast<StructType>(T)) {
                        for (unsigned k = 0; k < i; ++k) o += nleaves(st->getElementType(k));
                        T = st->getElementType(i);
                    } else {
                        auto* at = cast<ArrayType>(T);
                        o += i * nleaves(at->getElementType());
                        T = at->getElementType();
                    }
                }
                return o;
            };
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                int a = opnd(ev->getAggregateOperand());
                unsigned o = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices());
                for (unsigned k = 0; k < rl.size(); ++k) { Ins m = n; m.op = O_COPY; m.dst = n.dst + k; m.a = leafOp(a, o + k); push(m); }
                continue;
            }
            if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                int a = opnd(iv->getAggregateOperand()), b = opnd(iv->getInsertedValueOperand());
                unsigned o = aggOff(I.getType(), iv->getIndices()), cnt = nleaves(iv->getInsertedValueOperand()->getType());
                for (unsigned k = 0; k < rl.size(); ++k) {
                    Ins m = n; m.op = O_COPY; m.dst = n.dst + k;
                    m.a = (k >= o && k < o + cnt) ? leafOp(b, k - o) : leafOp(a, k);
                    push(m);
                }
                continue;
            }
            if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
                int a = opnd(ee->getVectorOperand());
                if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { n.op = O_COPY; n.a = leafOp(a, (unsigned)ci->getZExtValue()); push(n); continue; }
                push(n);
                continue;
            }
            if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
                int a = opnd(ie->getOperand(0)), b = opnd(ie->getOperand(1));
                if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) {
                    for (unsigned k = 0; k < rl.size(); ++k) { Ins m = n; m.op = O_COPY; m.dst = n.dst + k; m.a = k == ci->getZExtValue() ? b : leafOp(a, k); push(m); }
                    continue;
                }
                push(n);
                continue;
            }
            if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                int a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1));
                int cnt = (int)nleaves(sv->getOperand(0)->getType());
                for (unsigned k = 0; k < rl.size(); ++k) {
                    int mk = sv->getMaskValue(k);
                    Ins m = n; m.op = O_COPY; m.dst = n.dst + k;
                    m.a = mk < 0 ? ~0 : mk < cnt ? leafOp(a, mk) : leafOp(b, mk - cnt);
                    push(m);
                }
                continue;
            }
            if (auto* br = dyn_cast<BranchInst>(&I)) {
                n.x = new Aux();
                if (br->isUnconditional()) { n.op = O_BR; edge(n.x->e0, &B, br->getSuccessor(0)); }
                else {
                    n.op = O_CONDBR; n.a = opnd(br->getCondition());
                    edge(n.x->e0, &B, br->getSuccessor(0));
                    edge(n.x->e1, &B, br->getSuccessor(1));
                }
                push(n);
                continue;
            }
            if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                n.op = O_SWITCH; n.a = opnd(sw->getCondition()); n.w = width(sw->getCondition()->getType());
                n.x = new Aux();
                std::map<BasicBlock*, u32> ei;
                std::vector<BasicBlock*> ord;
                auto get = [&](BasicBlock* b) { auto it = ei.find(b); if (it != ei.end()) return it->second; u32 k = (u32)ord.size(); ord.push_back(b); ei[b] = k; return k; };
                get(sw->getDefaultDest());
                for (auto c : sw->cases()) n.x->cases.push_back({c.getCaseValue()->getZExtValue(), get(c.getCaseSuccessor())});
                n.x->edges.resize(ord.size());
                for (u32 k = 0; k < ord.size(); ++k) edge(n.x->edges[k], &B, ord[k]);
                push(n);
                continue;
            }
            if (auto* r = dyn_cast<ReturnInst>(&I)) {
                n.op = O_RET; n.x = new Aux();
                if (r->getReturnValue()) {
                    int a = opnd(r->getReturnValue());
                    unsigned c = nleaves(r->getReturnValue()->getType());
                    for (unsigned k = 0; k < c; ++k) n.x->args.push_back(leafOp(a, k));
                }
                push(n);
                continue;
            }
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                n.op = isa<InvokeInst>(cb) ? O_INVOKE : O_CALL;
                n.x = new Aux();
                if (cb->isInlineAsm()) { n.op = cb->getType()->isVoidTy() ? O_NOP : O_UNSUP; push(n); continue; }
                Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
                n.x->callee = cf;
                if (cf && cf->isIntrinsic()) {
                    switch (cf->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                    case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend:
                        if (n.dst < 0) { n.op = O_NOP; }
                        else n.op = O_COPY, n.a = ~0;
                        if (!isa<InvokeInst>(cb)) { if (n.op != O_NOP) push(n); continue; }
                        break;
                    default: break;
                    }
                }
                if (!cf) n.a = opnd(cb->getCalledOperand());
                else {
                    auto it = builtins.find(cf->getName().str());
                    if (it != builtins.end()) n.x->bi = &it->second;
                }
                n.x->nfixed = 0;
                unsigned fixedN = cb->getFunctionType()->getNumParams();
                for (unsigned k = 0; k < cb->arg_size(); ++k) {
                    Value* av = cb->getArgOperand(k);
                    if (av->getType()->isMetadataTy()) { n.x->args.push_back(~0); n.x->argw.push_back(0); if (k < fixedN) n.x->nfixed++; continue; }
                    int o = opnd(av);
                    std::vector<Leaf> al;
                    leaves(av->getType(), al);
                    if (cb->isByValArgument(k)) n.x->byval.push_back({(unsigned)n.x->args.size(), (u64)DL.getTypeAllocSize(cb->getParamByValType(k))});
                    for (unsigned q = 0; q < al.size(); ++q) { n.x->args.push_back(leafOp(o, q)); n.x->argw.push_back(al[q].w); if (k < fixedN) n.x->nfixed++; }
                }
                n.x->retLeaves = (unsigned)rl.size();
                for (auto& l : rl) n.x->retw.push_back(l.w);
                n.w = rl.empty() ? 0 : rl[0].w;
                if (auto* iv = dyn_cast<InvokeInst>(cb)) {
                    edge(n.x->e0, &B, iv->getNormalDest());
                    edge(n.x->e1, &B, iv->getUnwindDest());
                    const LandingPadInst* lp = iv->getLandingPadInst();
                    n.x->cleanup = lp->isCleanup();
                    for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                        Constant* cl = lp->getClause(k);
                        if (lp->isCatch(k)) n.x->clauses.push_back({true, constU64(cl)});
                        else {
                            n.x->clauses.push_back({false, n.x->filters.size()});
                            std::vector<Val> fv;
                            constVals(cl, fv);
                            std::vector<u64> t;
                            for (auto& q : fv) t.push_back(q.c);
                            n.x->filters.push_back(t);
                        }
                    }
                }
                push(n);
                continue;
            }
            if (isa<UnreachableInst>(&I)) { n.op = O_UNREACH; push(n); continue; }
            if (isa<LandingPadInst>(&I)) { n.op = O_LPAD; push(n); continue; }
            if (isa<ResumeInst>(&I)) { n.op = O_RESUME; n.a = opnd(I.getOperand(0)); push(n); continue; }
            if (auto* al = dyn_cast<AllocaInst>(&I)) {
                n.op = O_ALLOCA; n.imm = (i64)DL.getTypeAllocSize(al->getAllocatedType());
                n.a = opnd(al->getArraySize()); n.w = width(al->getArraySize()->getType());
                push(n);
                continue;
            }
            if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
                n.op = O_RMW; n.a = opnd(rm->getPointerOperand()); n.b = opnd(rm->getValOperand());
                n.w = rl[0].w; n.w2 = rl[0].bytes; n.sub = rm->getOperation(); n.flag = (uint8_t)rm->getOrdering();
                push(n);
                continue;
            }
            if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                n.op = O_CMPXCHG; n.a = opnd(cx->getPointerOperand()); n.b = opnd(cx->getCompareOperand()); n.c = opnd(cx->getNewValOperand());
                n.w = rl[0].w; n.w2 = rl[0].bytes; n.flag = (uint8_t)cx->getSuccessOrdering(); n.sub = (uint8_t)cx->getFailureOrdering();
                push(n);
                continue;
            }
            if (auto* fe = dyn_cast<FenceInst>(&I)) { n.op = O_FENCE; n.sub = (uint8_t)fe->getOrdering(); push(n); continue; }
            push(n);
        }
    }
    for (auto& fx : fixes) {
        fx.e->to = start[fx.to];
        for (const PHINode& P : fx.to->phis()) {
            Value* v = const_cast<Value*>(P.getIncomingValueForBlock(fx.from));
            int o = opnd(v), d = slot[&P];
            unsigned c = nleaves(P.getType());
            for (unsigned k = 0; k < c; ++k) fx.e->copies.push_back({d + (int)k, leafOp(o, k)});
        }
    }
}
