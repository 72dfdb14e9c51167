// one instruction of thread t; included inside Engine
static double asF(E e) { if (e->width == 32) { float f; uint32_t u = e->val; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &e->val, 8); return d; }
static E fromF(double d, unsigned w)
{
    if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return mkConst(32, u); }
    uint64_t u; memcpy(&u, &d, 8); return mkConst(64, u);
}
E icmp(CmpInst::Predicate p, E a, E b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    default: fatal("icmp predicate");
    }
}
StepRes branchOn(State& s, int t, E c, const BasicBlock* from, const BasicBlock* T, const BasicBlock* F)
{
    if (c->isConst()) { jump(s, t, from, c->val ? T : F); return S_Next; }
    bool a = feasible(s, c), b = a ? feasible(s, mkNot(c)) : true;
    if (a && b) {
        State* n = fork(s, mkNot(c));
        jump(*n, t, from, F);
        work.push_back(n);
        addPC(s, c);
        jump(s, t, from, T);
        return S_Next;
    }
    jump(s, t, from, a ? T : F);
    return S_Next;
}
Val binop(unsigned opc, const Val& a, const Val& b, Type* ty, State& s, int t)
{
    if (a.agg) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(binop(opc, (*a.agg)[i], (*b.agg)[i], ty->getScalarType(), s, t));
        return v;
    }
    switch (opc) {
    case Instruction::Add: return mkBin(Op::Add, a.e, b.e);
    case Instruction::Sub: return mkBin(Op::Sub, a.e, b.e);
    case Instruction::Mul: return mkBin(Op::Mul, a.e, b.e);
    case Instruction::UDiv: return mkBin(Op::UDiv, a.e, b.e);
    case Instruction::SDiv: return mkBin(Op::SDiv, a.e, b.e);
    case Instruction::URem: return mkBin(Op::URem, a.e, b.e);
    case Instruction::SRem: return mkBin(Op::SRem, a.e, b.e);
    case Instruction::And: return mkBin(Op::And, a.e, b.e);
    case Instruction::Or: return mkBin(Op::Or, a.e, b.e);
    case Instruction::Xor: return mkBin(Op::Xor, a.e, b.e);
    case Instruction::Shl: return mkBin(Op::Shl, a.e, b.e);
    case Instruction::LShr: return mkBin(Op::LShr, a.e, b.e);
    case Instruction::AShr: return mkBin(Op::AShr, a.e, b.e);
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (!a.e->isConst() || !b.e->isConst()) fatal("symbolic floating point at " + whereOf(s, t, false));
        double x = asF(a.e), y = asF(b.e), r = opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : x / y;
        return fromF(r, a.e->width);
    }
    default: fatal("binary operator");
    }
}
StepRes step(State& s, int t, KInst& ki)
{
    Instruction* I = ki.I;
    Frame* fp = &top(s, t);
    auto op = [&](unsigned i) -> Val& { return R(*fp, ki.ops[i]); };
    auto set = [&](Val v) { fp->regs[ki.dest] = std::move(v); fp->pc++; };
    switch (I->getOpcode()) {
    case Instruction::Ret: {
        Val v; if (I->getNumOperands()) v = op(0);
        doRet(s, t, v);
        return S_Next;
    }
    case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { jump(s, t, b->getParent(), b->getSuccessor(0)); return S_Next; }
        return branchOn(s, t, op(0).e, b->getParent(), b->getSuccessor(0), b->getSuccessor(1));
    }
    case Instruction::Switch: {
        auto* w = cast<SwitchInst>(I);
        E v = op(0).e;
        if (v->isConst()) {
            const BasicBlock* to = w->getDefaultDest();
            for (auto& c : w->cases()) if (c.getCaseValue()->getZExtValue() == v->val) { to = c.getCaseSuccessor(); break; }
            jump(s, t, w->getParent(), to);
            return S_Next;
        }
        std::map<const BasicBlock*, E> dst; std::vector<const BasicBlock*> order;
        E other = mkBool(true);
        for (auto& c : w->cases()) {
            E g = mkEq(v, mkConst(v->width, c.getCaseValue()->getZExtValue()));
            auto& d = dst[c.getCaseSuccessor()];
            if (!d) { d = g; order.push_back(c.getCaseSuccessor()); } else d = mkOr(d, g);
            other = mkAnd(other, mkNot(g));
        }
        { auto& d = dst[w->getDefaultDest()]; if (!d) { d = other; order.push_back(w->getDefaultDest()); } else d = mkOr(d, other); }
        std::vector<std::pair<const BasicBlock*, E>> f;
        for (auto* b : order) if (feasible(s, dst[b])) f.push_back({b, dst[b]});
        for (size_t i = 1; i < f.size(); i++) { State* n = fork(s, f[i].second); jump(*n, t, w->getParent(), f[i].first); work.push_back(n); }
        if (f.size() > 1) addPC(s, f[0].second);
        jump(s, t, w->getParent(), f[0].first);
        return S_Next;
    }
    case Instruction::Unreachable:
        report(s, t, mkBool(true), "unreachable", "control reaches code the compiler marked unreachable (undefined behaviour)");
        return S_Dead;
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        uint64_t n = 1;
        if (a->isArrayAllocation()) { E c = op(0).e; if (!c->isConst()) fatal("symbolic alloca"); n = c->val; }
        uint64_t p = stackAlloc(s, t, n * DL->getTypeAllocSize(a->getAllocatedType()));
        set(mkConst(64, p));
        return S_Next;
    }
    case Instruction::Load: {
        auto* l = cast<LoadInst>(I);
        std::vector<Target> tg;
        uint64_t n = DL->getTypeStoreSize(l->getType());
        if (!resolve(s, t, op(0).e, n, false, tg)) return S_Dead;
        set(loadType(s, tg, 0, l->getType()));
        return S_Next;
    }
    case Instruction::Store: {
        auto* l = cast<StoreInst>(I);
        std::vector<Target> tg;
        Type* ty = l->getValueOperand()->getType();
        if (!resolve(s, t, op(1).e, DL->getTypeStoreSize(ty), true, tg)) return S_Dead;
        storeType(s, tg, 0, ty, op(0));
        top(s, t).pc++;
        return S_Next;
    }
    case Instruction::AtomicRMW: {
        auto* a = cast<AtomicRMWInst>(I);
        unsigned w = bitsOf(a->getType());
        std::vector<Target> tg;
        if (!resolve(s, t, op(0).e, w / 8, true, tg)) return S_Dead;
        E o = loadBytes(s, tg, 0, w / 8), v = op(1).e, n;
        switch (a->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = mkBin(Op::Add, o, v); break;
        case AtomicRMWInst::Sub: n = mkBin(Op::Sub, o, v); break;
        case AtomicRMWInst::And: n = mkAnd(o, v); break;
        case AtomicRMWInst::Nand: n = mkNot(mkAnd(o, v)); break;
        case AtomicRMWInst::Or: n = mkOr(o, v); break;
        case AtomicRMWInst::Xor: n = mkBin(Op::Xor, o, v); break;
        case AtomicRMWInst::Max: n = mkIte(mkBin(Op::Slt, o, v), v, o); break;
        case AtomicRMWInst::Min: n = mkIte(mkBin(Op::Slt, v, o), v, o); break;
        case AtomicRMWInst::UMax: n = mkIte(mkBin(Op::Ult, o, v), v, o); break;
        case AtomicRMWInst::UMin: n = mkIte(mkBin(Op::Ult, v, o), v, o); break;
        default: fatal("atomicrmw operation");
        }
        storeBytes(s, tg, 0, n);
        fp = &top(s, t);
        set(o);
        return S_Next;
    }
    case Instruction::AtomicCmpXchg: {
        auto* a = cast<AtomicCmpXchgInst>(I);
        unsigned w = bitsOf(a->getCompareOperand()->getType());
        std::vector<Target> tg;
        if (!resolve(s, t, op(0).e, w / 8, true, tg)) return S_Dead;
        E o = loadBytes(s, tg, 0, w / 8), ok = mkEq(o, op(1).e);
        storeBytes(s, tg, 0, mkIte(ok, op(2).e, o));
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(o); v.agg->push_back(ok);
        fp = &top(s, t);
        set(v);
        return S_Next;
    }
    case Instruction::Fence: fp->pc++; return S_Next;
    case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(I);
        if (g->getType()->isVectorTy()) fatal("vector gep");
        E p = op(0).e;
        unsigned i = 1;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++i) {
            if (StructType* st = gi.getStructTypeOrNull()) {
                p = mkBin(Op::Add, p, mkConst(64, DL->getStructLayout(st)->getElementOffset(op(i).e->val).getFixedValue()));
            } else {
                uint64_t sz = gi.getSequentialElementStride(*DL);
                E ix = mkSExt(op(i).e->width > 64 ? mkExtract(op(i).e, 0, 64) : op(i).e, 64);
                p = mkBin(Op::Add, p, mkBin(Op::Mul, ix, mkConst(64, sz)));
            }
        }
        set(p);
        return S_Next;
    }
    case Instruction::Trunc: {
        if (op(0).agg) fatal("vector trunc");
        set(mkExtract(op(0).e, 0, bitsOf(I->getType()))); return S_Next;
    }
    case Instruction::ZExt: if (op(0).agg) fatal("vector zext"); set(mkZExt(op(0).e, bitsOf(I->getType()))); return S_Next;
    case Instruction::SExt: if (op(0).agg) fatal("vector sext"); set(mkSExt(op(0).e, bitsOf(I->getType()))); return S_Next;
    case Instruction::PtrToInt: case Instruction::IntToPtr: set(mkTruncOrZExt(op(0).e, bitsOf(I->getType()))); return S_Next;
    case Instruction::BitCast:
        if (I->getType()->isVectorTy() || I->getOperand(0)->getType()->isVectorTy()) fatal("vector bitcast");
        set(op(0)); return S_Next;
    case Instruction::Freeze: set(op(0)); return S_Next;
    case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(I);
        if (op(0).agg) fatal("vector icmp");
        set(icmp(c->getPredicate(), op(0).e, op(1).e));
        return S_Next;
    }
    case Instruction::FCmp: {
        auto* c = cast<FCmpInst>(I);
        E a = op(0).e, b = op(1).e;
        if (!a->isConst() || !b->isConst()) fatal("symbolic floating point compare");
        double x = asF(a), y = asF(b); bool un = x != x || y != y, r;
        switch (c->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        default: r = false;
        }
        set(mkBool(r));
        return S_Next;
    }
    case Instruction::UIToFP: case Instruction::SIToFP: {
        E a = op(0).e;
        if (!a->isConst()) fatal("symbolic int to floating point at " + whereOf(s, t, false));
        double d = I->getOpcode() == Instruction::UIToFP ? (double)a->val : (double)sextW(a->val, a->width);
        set(fromF(d, bitsOf(I->getType())));
        return S_Next;
    }
    case Instruction::FPToUI: case Instruction::FPToSI: {
        E a = op(0).e;
        if (!a->isConst()) fatal("symbolic floating point to int");
        double d = asF(a);
        set(mkConst(bitsOf(I->getType()), I->getOpcode() == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d));
        return S_Next;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        E a = op(0).e;
        if (!a->isConst()) fatal("symbolic floating point conversion");
        set(fromF(asF(a), bitsOf(I->getType())));
        return S_Next;
    }
    case Instruction::FNeg: set(fromF(-asF(op(0).e), op(0).e->width)); return S_Next;
    case Instruction::Select: {
        E c = op(0).e;
        if (!c) fatal("vector select");
        Val a = op(1), b = op(2);
        if (c->isConst()) { set(c->val ? a : b); return S_Next; }
        Val r = a;
        if (!mergeVal(c, r, b)) fatal("select merge");
        set(r);
        return S_Next;
    }
    case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(I);
        Val v = op(0);
        for (unsigned i : x->indices()) { Val n = (*v.agg)[i]; v = n; }
        set(v);
        return S_Next;
    }
    case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(I);
        Val base = op(0), nv = op(1);
        std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& b, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return nv;
            Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg);
            (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1));
            return r;
        };
        set(ins(base, x->getIndices()));
        return S_Next;
    }
    case Instruction::ExtractElement: {
        E ix = op(1).e; if (!ix->isConst()) fatal("extractelement");
        Val v = (*op(0).agg)[ix->val]; set(v); return S_Next;
    }
    case Instruction::InsertElement: {
        E ix = op(2).e; if (!ix->isConst()) fatal("insertelement");
        Val v; v.agg = std::make_shared<std::vector<Val>>(*op(0).agg); (*v.agg)[ix->val] = op(1); set(v); return S_Next;
    }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I);
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        size_t n = op(0).agg->size();
        for (int m : sv->getShuffleMask()) v.agg->push_back(m < 0 ? (*op(0).agg)[0] : (size_t)m < n ? (*op(0).agg)[m] : (*op(1).agg)[m - n]);
        set(v);
        return S_Next;
    }
    case Instruction::Resume: {
        Val v = op(0);
        E ex = (*v.agg)[0].e;
        if (!ex->isConst()) fatal("symbolic exception object in resume");
        return unwind(s, t, ex->val) ? S_Next : S_Dead;
    }
    case Instruction::Call: case Instruction::Invoke: return call(s, t, ki, cast<CallBase>(I));
    default:
        if (I->isBinaryOp()) {
            unsigned o = I->getOpcode();
            Val a = op(0), b = op(1);
            if (o == Instruction::UDiv || o == Instruction::SDiv || o == Instruction::URem || o == Instruction::SRem) {
                E z = mkEq(b.e, mkConst(b.e->width, 0));
                if (!z->isFalse() && feasible(s, z)) { if (!report(s, t, z, "arith", "division by zero")) return S_Dead; }
            }
            fp = &top(s, t);
            set(binop(o, a, b, I->getType(), s, t));
            return S_Next;
        }
        fatal(std::string("unsupported instruction ") + I->getOpcodeName());
    }
}
// enter function K with the call's arguments
StepRes enter(State& s, int t, KInst& ki, CallBase* cb, KFunc* K)
{
    Frame& f = top(s, t);
    std::vector<Val> args, va;
    unsigned na = cb->arg_size();
    for (unsigned i = 0; i < na; i++) {
        Val v = R(f, ki.ops[i]);
        if (i < K->nargs) args.push_back(v); else va.push_back(v);
    }
    if (K->F->getName().starts_with("symrt_")) // variadic system calls: arguments not given are zero
        while (args.size() < K->nargs) { Val z; z.e = mkConst(DL->getTypeSizeInBits(K->F->getArg(args.size())->getType()), 0); args.push_back(z); }
    if (args.size() < K->nargs) {
        report(s, t, mkBool(true), "memory", "call through a pointer of the wrong type: " + K->F->getName().str());
        return S_Dead;
    }
    bool must = false;
    if (auto* ci = dyn_cast<CallInst>(cb)) must = ci->isMustTailCall();
    if (must) {
        // replace the current frame
        unsigned base = s.th[t].st.back()->spBase;
        stackPop(s, t, base);
        s.th[t].st.pop_back();
    }
    pushFrame(s, t, K, args);
    for (unsigned i = 0; i < K->nargs && i < na; i++)
        if (cb->isByValArgument(i)) {
            uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
            uint64_t p = stackAlloc(s, t, sz);
            if (!copyBytes(s, t, mkConst(64, p), args[i].e, sz)) return S_Dead;
            top(s, t).regs[i] = mkConst(64, p);
        }
    top(s, t).varargs = va;
    return S_Next;
}
bool copyBytes(State& s, int t, E dst, E src, uint64_t n)
{
    if (n == 0) return true;
    std::vector<Target> a, b;
    if (!resolve(s, t, src, n, false, b)) return false;
    if (!resolve(s, t, dst, n, true, a)) return false;
    if (a.size() == 1 && b.size() == 1 && a[0].guard->isTrue() && b[0].guard->isTrue()) {
        Obj* w = findW(s, a[0].addr); Obj* r = find(s, b[0].addr);
        uint64_t po = a[0].addr - w->addr, pi = b[0].addr - r->addr;
        if (!r->s.empty() && w->s.empty()) w->s.assign(w->size, nullptr);
        std::vector<uint8_t> tb(r->b.begin() + pi, r->b.begin() + pi + n);
        std::copy(tb.begin(), tb.end(), w->b.begin() + po);
        if (!r->s.empty()) { std::vector<E> ts(r->s.begin() + pi, r->s.begin() + pi + n); std::copy(ts.begin(), ts.end(), w->s.begin() + po); }
        else if (!w->s.empty()) std::fill(w->s.begin() + po, w->s.begin() + po + n, nullptr);
        return true;
    }
    std::vector<E> tmp;
    for (uint64_t o = 0; o < n;) { unsigned k = n - o >= 8 ? 8 : 1; tmp.push_back(loadBytes(s, b, o, k)); o += k; }
    size_t i = 0;
    for (uint64_t o = 0; o < n;) { unsigned k = n - o >= 8 ? 8 : 1; storeBytes(s, a, o, tmp[i++]); o += k; }
    return true;
}
StepRes finish(State& s, int t, KInst& ki, Val v)
{
    Frame& f = top(s, t);
    if (ki.dest >= 0) f.regs[ki.dest] = v;
    if (auto* inv = dyn_cast<InvokeInst>(ki.I)) jump(s, t, inv->getParent(), inv->getNormalDest());
    else f.pc++;
    return S_Next;
}
StepRes call(State& s, int t, KInst& ki, CallBase* cb)
{
    Frame& f = top(s, t);
    if (cb->isInlineAsm()) {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        StringRef a = ia->getAsmString();
        if (a.empty() || a.contains("pause") || a == "nop") return finish(s, t, ki, ki.dest >= 0 ? zeroOf(cb->getType()) : Val());
        fatal("inline assembly: " + a.str());
    }
    Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
    if (!F) {
        int o = ki.ops.back();
        // called operand is the last operand
        if (cb->getOperand(cb->getNumOperands() - 1) != cb->getCalledOperand()) {
            for (unsigned i = 0; i < cb->getNumOperands(); i++) if (cb->getOperand(i) == cb->getCalledOperand()) o = ki.ops[i];
        }
        Val v = R(f, o);
        if (!v.e->isConst()) { concretizeReg(s, t, o); v = R(top(s, t), o); }
        uint64_t a = v.e->val;
        if (a <= FN_BASE || (a - FN_BASE) % 16 || (a - FN_BASE) / 16 > fnByIdx.size()) {
            report(s, t, mkBool(true), "memory", a < 4096 ? "call through a null function pointer (resuming a finished or empty coroutine)" : "call through an invalid function pointer");
            return S_Dead;
        }
        F = fnByIdx[(a - FN_BASE) / 16 - 1];
    }
    if (!F->isDeclaration()) return enter(s, t, ki, cb, lower(F));
    if (F->isIntrinsic()) return llvmIntrinsic(s, t, ki, cast<IntrinsicInst>(cb));
    return external(s, t, ki, cb, F);
}
