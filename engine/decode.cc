#include "exec.h"
#include "decode.h"
using namespace llvm;

extern const DataLayout* g_dl;

static void flattenRec(Type* t, uint64_t off, std::vector<SlotT>& out) {
    const DataLayout& dl = *g_dl;
    if ( auto* st = dyn_cast<StructType>(t) ) {
        auto* sl = dl.getStructLayout(st);
        for ( unsigned i = 0; i < st->getNumElements(); i++ ) flattenRec(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if ( auto* at = dyn_cast<ArrayType>(t) ) {
        uint64_t es = dl.getTypeAllocSize(at->getElementType());
        for ( uint64_t i = 0; i < at->getNumElements(); i++ ) flattenRec(at->getElementType(), off + i * es, out);
    } else if ( auto* vt = dyn_cast<FixedVectorType>(t) ) {
        uint64_t es = dl.getTypeStoreSize(vt->getElementType());
        for ( uint64_t i = 0; i < vt->getNumElements(); i++ ) flattenRec(vt->getElementType(), off + i * es, out);
    } else if ( t->isPointerTy() ) out.push_back({ (uint32_t)off, 64 });
    else if ( t->isIntegerTy() ) out.push_back({ (uint32_t)off, (uint16_t)t->getIntegerBitWidth() });
    else if ( t->isFloatTy() ) out.push_back({ (uint32_t)off, 32 });
    else if ( t->isDoubleTy() ) out.push_back({ (uint32_t)off, 64 });
    else if ( t->isX86_FP80Ty() ) out.push_back({ (uint32_t)off, 80 });
    else if ( t->isTokenTy() || t->isMetadataTy() || t->isVoidTy() || t->isLabelTy() ) {}
    else out.push_back({ (uint32_t)off, 64 });
}
const std::vector<SlotT>& slotsOf(Type* t) {
    static std::unordered_map<Type*, std::vector<SlotT>> cache;
    auto it = cache.find(t);
    if ( it != cache.end() ) return it->second;
    std::vector<SlotT> v;
    flattenRec(t, 0, v);
    return cache[t] = v;
}
static unsigned scalarW(Type* t) {
    if ( auto* vt = dyn_cast<VectorType>(t) ) t = vt->getElementType();
    auto& s = slotsOf(t);
    return s.empty() ? 0 : s[0].w;
}

struct Decoder {
    FI&                             fi;
    std::unordered_map<const Value*, int> reg;
    std::unordered_map<const Value*, int> cpool;
    std::unordered_map<const BasicBlock*, int> bbpc;
    explicit Decoder(FI& f) : fi(f) {}

    void constVals(const Constant* c, std::vector<Val>& out) {
        Type* t = c->getType();
        auto& sl = slotsOf(t);
        if ( isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) ) {
            for ( auto& s : sl ) out.push_back(s.w <= 64 ? vc(0) : vE(mkConst(0, s.w)));
            return;
        }
        if ( auto* ci = dyn_cast<ConstantInt>(c) ) {
            unsigned w = ci->getBitWidth();
            if ( w <= 64 ) out.push_back(vc(ci->getZExtValue()));
            else {
                u128 v = ci->getValue().getRawData()[0];
                if ( w > 64 ) v |= (u128)ci->getValue().getRawData()[1] << 64;
                out.push_back(vE(mkConst(v, w)));
            }
            return;
        }
        if ( auto* cf = dyn_cast<ConstantFP>(c) ) {
            if ( t->isX86_FP80Ty() ) { out.push_back(vE(mkConst(0, 80))); return; }
            out.push_back(vc(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
            return;
        }
        if ( auto* cs = dyn_cast<ConstantStruct>(c) ) { for ( auto& o : cs->operands() ) constVals(cast<Constant>(o), out); return; }
        if ( auto* ca = dyn_cast<ConstantArray>(c) ) { for ( auto& o : ca->operands() ) constVals(cast<Constant>(o), out); return; }
        if ( auto* cv = dyn_cast<ConstantVector>(c) ) { for ( auto& o : cv->operands() ) constVals(cast<Constant>(o), out); return; }
        if ( auto* cd = dyn_cast<ConstantDataSequential>(c) ) { for ( unsigned i = 0; i < cd->getNumElements(); i++ ) constVals(cd->getElementAsConstant(i), out); return; }
        out.push_back(vc(constAddr(c)));
    }
    int opnd(const Value* v) {
        auto it = reg.find(v);
        if ( it != reg.end() ) return it->second;
        auto ic = cpool.find(v);
        if ( ic != cpool.end() ) return ic->second;
        if ( auto* c = dyn_cast<Constant>(v) ) {
            int idx = (int)fi.pool.size();
            std::vector<Val> tmp;
            constVals(c, tmp);
            for ( auto& x : tmp ) fi.pool.push_back(x);
            return cpool[v] = ~idx;
        }
        if ( isa<InlineAsm>(v) || isa<MetadataAsValue>(v) ) return 0;
        errs() << "opnd? " << *v << "\n";
        abort();
    }
    int edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = -1;
        for ( auto& phi : to->phis() ) {
            int d = reg[&phi];
            const Value* in = phi.getIncomingValueForBlock(from);
            int s = opnd(in);
            int n = slotsOf(phi.getType()).size();
            for ( int i = 0; i < n; i++ ) e.copies.push_back({ d + i, s >= 0 ? s + i : ~(~s + i) });
        }
        fi.edges.push_back(e);
        pend.push_back(to);
        return fi.edges.size() - 1;
    }
    std::vector<const BasicBlock*> pend;

    void run() {
        Function* F = fi.F;
        for ( auto& a : F->args() ) {
            int n = slotsOf(a.getType()).size();
            reg[&a] = fi.nregs;
            fi.argRegs.push_back(fi.nregs);
            fi.argSlots.push_back(n);
            fi.nregs += n;
        }
        for ( auto& bb : *F )
            for ( auto& I : bb ) {
                int n = slotsOf(I.getType()).size();
                if ( n ) { reg[&I] = fi.nregs; fi.nregs += n; }
            }
        for ( auto& bb : *F ) {
            bbpc[&bb] = fi.code.size();
            for ( auto& I : bb ) {
                if ( isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) ) continue;
                fi.code.emplace_back();
                DI d;
                d.I = &I;
                if ( reg.count(&I) ) d.dst = reg[&I];
                d.n = std::max<int>(1, slotsOf(I.getType()).size());
                inst(I, d);
                fi.code.back() = d;
            }
        }
        for ( size_t i = 0; i < fi.edges.size(); i++ ) fi.edges[i].target = bbpc[pend[i]];
        fi.cov.assign(fi.code.size(), 0);
    }
    void inst(Instruction& I, DI& d) {
        Type* T = I.getType();
        switch ( I.getOpcode() ) {
        case Instruction::Add: bin(I, d, OAdd); break;
        case Instruction::Sub: bin(I, d, OSub); break;
        case Instruction::Mul: bin(I, d, OMul); break;
        case Instruction::UDiv: bin(I, d, OUDiv); d.fl = 1; break;
        case Instruction::SDiv: bin(I, d, OSDiv); d.fl = 1; break;
        case Instruction::URem: bin(I, d, OURem); d.fl = 1; break;
        case Instruction::SRem: bin(I, d, OSRem); d.fl = 1; break;
        case Instruction::And: bin(I, d, OAnd); break;
        case Instruction::Or: bin(I, d, OOr); break;
        case Instruction::Xor: bin(I, d, OXor); break;
        case Instruction::Shl: bin(I, d, OShl); break;
        case Instruction::LShr: bin(I, d, OLShr); break;
        case Instruction::AShr: bin(I, d, OAShr); break;
        case Instruction::FAdd: bin(I, d, OFAdd); d.op = D_FBIN; break;
        case Instruction::FSub: bin(I, d, OFSub); d.op = D_FBIN; break;
        case Instruction::FMul: bin(I, d, OFMul); d.op = D_FBIN; break;
        case Instruction::FDiv: bin(I, d, OFDiv); d.op = D_FBIN; break;
        case Instruction::FRem: bin(I, d, OFRem); d.op = D_FBIN; break;
        case Instruction::FNeg: d.op = D_FNEG; d.w = scalarW(T); d.a = opnd(I.getOperand(0)); break;
        case Instruction::ICmp: d.op = D_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); d.w = scalarW(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
        case Instruction::FCmp: d.op = D_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = scalarW(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
        case Instruction::Select:
            d.op = D_SELECT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2));
            d.fl = I.getOperand(0)->getType()->isVectorTy();
            for ( auto& s : slotsOf(T) ) d.x.push_back(s.w);
            break;
        case Instruction::Trunc: d.op = D_TRUNC; d.w = scalarW(I.getOperand(0)->getType()); d.w2 = scalarW(T); d.a = opnd(I.getOperand(0)); break;
        case Instruction::ZExt: d.op = D_ZEXT; d.w = scalarW(I.getOperand(0)->getType()); d.w2 = scalarW(T); d.a = opnd(I.getOperand(0)); break;
        case Instruction::SExt: d.op = D_SEXT; d.w = scalarW(I.getOperand(0)->getType()); d.w2 = scalarW(T); d.a = opnd(I.getOperand(0)); break;
        case Instruction::PtrToInt: { unsigned w2 = scalarW(T); d.op = w2 < 64 ? D_TRUNC : w2 > 64 ? D_ZEXT : D_MOVE; d.w = 64; d.w2 = w2; d.a = opnd(I.getOperand(0)); break; }
        case Instruction::IntToPtr: { unsigned w = scalarW(I.getOperand(0)->getType()); d.op = w < 64 ? D_ZEXT : w > 64 ? D_TRUNC : D_MOVE; d.w = w; d.w2 = 64; d.a = opnd(I.getOperand(0)); break; }
        case Instruction::BitCast: {
            unsigned ns = slotsOf(I.getOperand(0)->getType()).size();
            d.a = opnd(I.getOperand(0));
            if ( ns == (unsigned)d.n ) d.op = D_MOVE;
            else { d.op = D_BITCASTV; d.w = scalarW(I.getOperand(0)->getType()); d.w2 = scalarW(T); d.b = ns; }
            break;
        }
        case Instruction::Freeze: case Instruction::AddrSpaceCast: d.op = D_MOVE; d.a = opnd(I.getOperand(0)); break;
        case Instruction::FPToSI: fun(I, d, OFToSI); break;
        case Instruction::FPToUI: fun(I, d, OFToUI); break;
        case Instruction::SIToFP: fun(I, d, OSIToF); break;
        case Instruction::UIToFP: fun(I, d, OUIToF); break;
        case Instruction::FPExt: case Instruction::FPTrunc: fun(I, d, OFConv); break;
        case Instruction::GetElementPtr: {
            d.op = D_GEP;
            auto& G = cast<GEPOperator>(I);
            if ( T->isVectorTy() ) { d.op = D_UNSUP; break; }
            d.a = opnd(I.getOperand(0));
            int64_t off = 0;
            for ( auto gt = gep_type_begin(G), e = gep_type_end(G); gt != e; ++gt ) {
                Value* idx = gt.getOperand();
                if ( StructType* st = gt.getStructTypeOrNull() ) {
                    off += g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                    int64_t sc = gt.getSequentialElementStride(*g_dl);
                    if ( auto* ci = dyn_cast<ConstantInt>(idx) ) off += ci->getSExtValue() * sc;
                    else { d.v.push_back(opnd(idx)); d.x.push_back(sc); d.x.push_back(idx->getType()->getIntegerBitWidth()); }
                }
            }
            d.x.push_back(off);
            break;
        }
        case Instruction::Load: d.op = D_LOAD; d.a = opnd(I.getOperand(0)); d.fl = cast<LoadInst>(I).isAtomic() || cast<LoadInst>(I).isVolatile(); d.sub = (uint8_t)cast<LoadInst>(I).getOrdering(); slots(T, d); break;
        case Instruction::Store: d.op = D_STORE; d.a = opnd(I.getOperand(1)); d.b = opnd(I.getOperand(0)); d.fl = cast<StoreInst>(I).isAtomic() || cast<StoreInst>(I).isVolatile(); d.sub = (uint8_t)cast<StoreInst>(I).getOrdering(); slots(I.getOperand(0)->getType(), d); break;
        case Instruction::Alloca: {
            auto& A = cast<AllocaInst>(I);
            d.op = D_ALLOCA; d.a = opnd(A.getArraySize()); d.x.push_back(g_dl->getTypeAllocSize(A.getAllocatedType()));
            break;
        }
        case Instruction::Br: {
            auto& B = cast<BranchInst>(I);
            if ( B.isUnconditional() ) { d.op = D_BR; d.a = edge(I.getParent(), B.getSuccessor(0)); }
            else { d.op = D_CBR; d.a = opnd(B.getCondition()); d.b = edge(I.getParent(), B.getSuccessor(0)); d.c = edge(I.getParent(), B.getSuccessor(1)); }
            break;
        }
        case Instruction::Switch: {
            auto& S = cast<SwitchInst>(I);
            d.op = D_SWITCH; d.a = opnd(S.getCondition()); d.w = S.getCondition()->getType()->getIntegerBitWidth();
            d.b = edge(I.getParent(), S.getDefaultDest());
            for ( auto c : S.cases() ) { d.x.push_back(c.getCaseValue()->getZExtValue()); d.v.push_back(edge(I.getParent(), c.getCaseSuccessor())); }
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I);
            d.op = D_CALL;
            if ( C.isInlineAsm() ) { d.op = D_ASM; for ( auto& a : C.args() ) d.v.push_back(opnd(a)); break; }
            const Function* callee = C.getCalledFunction();
            if ( !callee ) { if ( auto* ga = dyn_cast<GlobalAlias>(C.getCalledOperand()) ) callee = dyn_cast<Function>(ga->getAliaseeObject()); }
            if ( callee ) d.x.push_back((int64_t)(intptr_t)resolveCallee(callee));
            else { d.x.push_back(0); }
            d.a = callee ? 0 : opnd(C.getCalledOperand());
            for ( unsigned i = 0; i < C.arg_size(); i++ ) {
                Value* a = C.getArgOperand(i);
                if ( a->getType()->isMetadataTy() ) { d.v.push_back(0); d.x.push_back(0); continue; }
                d.v.push_back(opnd(a));
                int64_t n = slotsOf(a->getType()).size();
                if ( C.isByValArgument(i) ) n |= (int64_t)g_dl->getTypeAllocSize(C.getParamByValType(i)) << 16 | (1ll << 60);
                d.x.push_back(n);
            }
            d.w = scalarW(T);
            if ( auto* inv = dyn_cast<InvokeInst>(&I) ) { d.fl = 1; d.b = edge(I.getParent(), inv->getNormalDest()); d.c = edge(I.getParent(), inv->getUnwindDest()); }
            break;
        }
        case Instruction::Ret: d.op = D_RET; if ( I.getNumOperands() ) { d.a = opnd(I.getOperand(0)); d.n = slotsOf(I.getOperand(0)->getType()).size(); } else d.n = 0; break;
        case Instruction::Unreachable: d.op = D_UNREACH; break;
        case Instruction::ExtractValue: {
            auto& X = cast<ExtractValueInst>(I);
            d.op = D_MOVE;
            int s = opnd(X.getAggregateOperand());
            int k = aggIndex(X.getAggregateOperand()->getType(), X.getIndices());
            d.a = s >= 0 ? s + k : ~(~s + k);
            break;
        }
        case Instruction::InsertValue: {
            auto& X = cast<InsertValueInst>(I);
            d.op = D_INSERT;
            d.a = opnd(X.getAggregateOperand()); d.b = opnd(X.getInsertedValueOperand());
            d.x.push_back(aggIndex(X.getAggregateOperand()->getType(), X.getIndices()));
            d.x.push_back(slotsOf(X.getInsertedValueOperand()->getType()).size());
            break;
        }
        case Instruction::ExtractElement: {
            d.op = D_EXTELT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = slotsOf(I.getOperand(0)->getType()).size(); d.w = scalarW(T);
            break;
        }
        case Instruction::InsertElement: d.op = D_INSELT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); break;
        case Instruction::ShuffleVector: {
            d.op = D_SHUF; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = slotsOf(I.getOperand(0)->getType()).size();
            for ( int m : cast<ShuffleVectorInst>(I).getShuffleMask() ) d.x.push_back(m);
            break;
        }
        case Instruction::LandingPad: {
            auto& L = cast<LandingPadInst>(I);
            d.op = D_LPAD; d.fl = L.isCleanup();
            for ( unsigned i = 0; i < L.getNumClauses(); i++ ) {
                if ( L.isCatch(i) ) { d.x.push_back(0); d.v.push_back(opnd(L.getClause(i))); }
                else { d.x.push_back(1); d.v.push_back(0); }
            }
            break;
        }
        case Instruction::Resume: d.op = D_RESUME; d.a = opnd(I.getOperand(0)); break;
        case Instruction::AtomicRMW: {
            auto& A = cast<AtomicRMWInst>(I);
            d.op = D_RMW; d.sub = A.getOperation(); d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getValOperand()); d.w = scalarW(T); d.fl = (uint8_t)A.getOrdering();
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto& A = cast<AtomicCmpXchgInst>(I);
            d.op = D_CMPXCHG; d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getCompareOperand()); d.c = opnd(A.getNewValOperand()); d.w = scalarW(A.getCompareOperand()->getType()); d.fl = A.isWeak();
            break;
        }
        case Instruction::Fence: d.op = D_FENCE; break;
        default: d.op = D_UNSUP;
        }
    }
    int aggIndex(Type* t, ArrayRef<unsigned> idx) {
        int k = 0;
        for ( unsigned i : idx ) {
            if ( auto* st = dyn_cast<StructType>(t) ) {
                for ( unsigned j = 0; j < i; j++ ) k += slotsOf(st->getElementType(j)).size();
                t = st->getElementType(i);
            } else {
                auto* at = cast<ArrayType>(t);
                k += i * slotsOf(at->getElementType()).size();
                t = at->getElementType();
            }
        }
        return k;
    }
    void slots(Type* t, DI& d) {
        auto& s = slotsOf(t);
        d.n = s.size();
        for ( auto& q : s ) { d.v.push_back(q.off); d.x.push_back(q.w); }
    }
    void bin(Instruction& I, DI& d, Op op) { d.op = D_BIN; d.sub = op; d.w = scalarW(I.getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); }
    void fun(Instruction& I, DI& d, Op op) { d.op = D_FUN; d.sub = op; d.w = scalarW(I.getOperand(0)->getType()); d.w2 = scalarW(I.getType()); d.a = opnd(I.getOperand(0)); }
};

void decodeFunction(FI& fi) { Decoder d(fi); d.run(); }
