StepRes llvmIntrinsic(State& s, int t, KInst& ki, IntrinsicInst* ii)
{
    Frame& f = top(s, t);
    auto op = [&](unsigned i) -> Val& { return R(f, ki.ops[i]); };
    auto fin = [&](Val v) { return finish(s, t, ki, v); };
    switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        if (!op(2).e->isConst()) { concretizeReg(s, t, ki.ops[2]); }
        Frame& g = top(s, t);
        E d = R(g, ki.ops[0]).e, sr = R(g, ki.ops[1]).e; uint64_t n = R(g, ki.ops[2]).e->val;
        if (n > (1u << 22)) { report(s, t, mkBool(true), "memory", "memcpy with a huge length"); return S_Dead; }
        if (!copyBytes(s, t, d, sr, n)) return S_Dead;
        return fin(Val());
    }
    case Intrinsic::memset: {
        if (!op(2).e->isConst()) concretizeReg(s, t, ki.ops[2]);
        Frame& g = top(s, t);
        E d = R(g, ki.ops[0]).e, v = R(g, ki.ops[1]).e; uint64_t n = R(g, ki.ops[2]).e->val;
        if (n == 0) return fin(Val());
        if (n > (1u << 22)) { report(s, t, mkBool(true), "memory", "memset with a huge length"); return S_Dead; }
        std::vector<Target> tg;
        if (!resolve(s, t, d, n, true, tg)) return S_Dead;
        for (uint64_t i = 0; i < n; i++) storeBytes(s, tg, i, v);
        return fin(Val());
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        E p = op(1).e;
        if (p->isConst()) {
            Obj* o = find(s, p->val);
            if (o && !o->freed && o->kind == K_Stack && o->addr == p->val) {
                o = findW(s, p->val);
                std::fill(o->b.begin(), o->b.end(), 0xAA);
                o->s.clear();
            }
        }
        return fin(Val());
    }
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return fin(op(0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return fin(op(0));
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        E a = op(0).e, b = op(1).e, c;
        switch (ii->getIntrinsicID()) {
        case Intrinsic::umin: c = mkBin(Op::Ult, a, b); break;
        case Intrinsic::umax: c = mkBin(Op::Ult, b, a); break;
        case Intrinsic::smin: c = mkBin(Op::Slt, a, b); break;
        default: c = mkBin(Op::Slt, b, a);
        }
        return fin(mkIte(c, a, b));
    }
    case Intrinsic::abs: { E a = op(0).e; E z = mkConst(a->width, 0); return fin(mkIte(mkBin(Op::Slt, a, z), mkBin(Op::Sub, z, a), a)); }
    case Intrinsic::usub_sat: { E a = op(0).e, b = op(1).e; return fin(mkIte(mkBin(Op::Ult, a, b), mkConst(a->width, 0), mkBin(Op::Sub, a, b))); }
    case Intrinsic::uadd_sat: { E a = op(0).e, b = op(1).e, r = mkBin(Op::Add, a, b); return fin(mkIte(mkBin(Op::Ult, r, a), mkConst(a->width, ~0ull), r)); }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
        E a = op(0).e; unsigned w = a->width;
        if (ii->getIntrinsicID() == Intrinsic::bswap) {
            E r = mkExtract(a, 0, 8);
            for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a, i, 8));
            return fin(r);
        }
        if (ii->getIntrinsicID() == Intrinsic::ctpop) {
            E r = mkConst(w, 0);
            for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), w));
            return fin(r);
        }
        E r = mkConst(w, w);
        if (ii->getIntrinsicID() == Intrinsic::ctlz) { for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(a, i, 1), mkBool(true)), mkConst(w, w - 1 - i), r); }
        else for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(a, i, 1), mkBool(true)), mkConst(w, i), r);
        return fin(r);
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E a = op(0).e, b = op(1).e, c = op(2).e; unsigned w = a->width;
        if (!c->isConst()) fatal("symbolic funnel shift");
        unsigned k = c->val % w;
        if (ii->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w, k = k;
        if (k == 0) return fin(ii->getIntrinsicID() == Intrinsic::fshl ? a : b);
        return fin(mkOr(mkBin(Op::Shl, a, mkConst(w, k)), mkBin(Op::LShr, b, mkConst(w, w - k))));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        E a = op(0).e, b = op(1).e, r, o; unsigned w = a->width;
        switch (ii->getIntrinsicID()) {
        case Intrinsic::uadd_with_overflow: r = mkBin(Op::Add, a, b); o = mkBin(Op::Ult, r, a); break;
        case Intrinsic::usub_with_overflow: r = mkBin(Op::Sub, a, b); o = mkBin(Op::Ult, a, b); break;
        case Intrinsic::sadd_with_overflow: {
            r = mkBin(Op::Add, a, b);
            E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
            o = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))); break;
        }
        case Intrinsic::ssub_with_overflow: {
            r = mkBin(Op::Sub, a, b);
            E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
            o = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); break;
        }
        default: {
            bool sg = ii->getIntrinsicID() == Intrinsic::smul_with_overflow;
            r = mkBin(Op::Mul, a, b);
            if (a->isConst() && b->isConst()) {
                bool ov;
                if (sg) { __int128 x = (__int128)sextW(a->val, w) * sextW(b->val, w); ov = x != (__int128)sextW((uint64_t)x & maskW(w), w); }
                else { unsigned __int128 x = (unsigned __int128)a->val * b->val; ov = (x >> w) != 0; }
                o = mkBool(ov);
            } else { // r / b != a
                E z = mkEq(b, mkConst(w, 0));
                E q = mkBin(sg ? Op::SDiv : Op::UDiv, r, b);
                o = mkAnd(mkNot(z), mkNot(mkEq(q, a)));
            }
        }
        }
        Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(r); v.agg->push_back(o);
        return fin(v);
    }
    case Intrinsic::eh_typeid_for: return fin(mkConst(32, typeId(op(0).e)));
    case Intrinsic::is_constant: return fin(mkBool(false));
    case Intrinsic::objectsize: return fin(mkConst(bitsOf(ii->getType()), ~0ull));
    case Intrinsic::trap: report(s, t, mkBool(true), "trap", "trap executed"); return S_Dead;
    case Intrinsic::ubsantrap: report(s, t, mkBool(true), "trap", "trap executed"); return S_Dead;
    case Intrinsic::threadlocal_address: {
        auto* gv = dyn_cast<GlobalVariable>(ii->getArgOperand(0)->stripPointerCasts());
        if (!gv) fatal("threadlocal.address operand");
        auto it = tlsIdx.find(gv);
        if (it == tlsIdx.end()) fatal("threadlocal variable");
        uint64_t a = ((uint64_t)(0x40 + t) << 32) | ((uint64_t)it->second << 16);
        if (!find(s, a)) {
            allocAt(s, a, DL->getTypeAllocSize(gv->getValueType()), K_Tls, 0);
            if (gv->hasInitializer()) writeConst(findW(s, a), 0, gv->getInitializer());
        }
        return fin(mkConst(64, a));
    }
    case Intrinsic::stacksave: return fin(mkConst(64, 0));
    case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::prefetch: return fin(Val());
        case Intrinsic::ceil: return fin(fromF(__builtin_ceil(asF(op(0).e)), op(0).e->width));
    case Intrinsic::floor: return fin(fromF(__builtin_floor(asF(op(0).e)), op(0).e->width));
    default:
        if (ii->getCalledFunction()->getName() == "llvm.x86.sse2.pause") return fin(Val());
        fatal("unsupported LLVM intrinsic " + ii->getCalledFunction()->getName().str() + " at " + whereOf(s, t, false));
    }
}
bool freeObj(State& s, int t, uint64_t a, const char* what)
{
    if (a == 0) return true;
    Obj* o = find(s, a);
    if (!o || o->kind != K_Heap || o->addr != a) { report(s, t, mkBool(true), "memory", std::string(what) + " of a pointer that is not a heap allocation"); return false; }
    if (o->freed) { report(s, t, mkBool(true), "memory", "double free"); return false; }
    o = findW(s, a);
    o->freed = true; o->b.clear(); o->s.clear(); o->b.shrink_to_fit();
    s.liveHash ^= (a * 0x9e3779b97f4a7c15ull) ^ (a >> 7);
    s.liveHeap--;
    return true;
}
StepRes external(State& s, int t, KInst& ki, CallBase* cb, Function* F)
{
    StringRef n = F->getName();
    Frame& f = top(s, t);
    auto arg = [&](unsigned i) -> E { return R(top(s, t), ki.ops[i]).e; };
    auto fin = [&](Val v) { return finish(s, t, ki, v); };
    auto conc = [&](unsigned i) -> uint64_t {
        if (!arg(i)->isConst()) concretizeReg(s, t, ki.ops[i]);
        return arg(i)->val;
    };
    (void)f;
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") {
        uint64_t sz = conc(0);
        return fin(mkConst(64, heapAlloc(s, t, sz, 0xAA)));
    }
    if (n == "calloc") { uint64_t a = conc(0), b = conc(1); return fin(mkConst(64, heapAlloc(s, t, a * b, 0))); }
    if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
        uint64_t a = conc(0);
        if (!freeObj(s, t, a, "free")) return S_Dead;
        return fin(Val());
    }
    if (n == "sym_input") { // uint64_t sym_input(int bits)
        uint64_t bits = conc(0);
        std::string nm = "in_t" + std::to_string(t) + "_" + std::to_string(s.th[t].symCnt++) + "_w" + std::to_string(bits);
        E v = input(nm, bits, s, t);
        if (rm) inputLog.push_back(std::to_string(t) + " " + std::to_string(v->val));
        return fin(mkZExt(v, 64));
    }
    if (n == "sym_assume") {
        E c = mkNot(mkEq(arg(0), mkConst(arg(0)->width, 0)));
        if (c->isTrue()) return fin(Val());
        if (!feasible(s, c)) return S_Dead;
        leaf(s, mkNot(c));
        addPC(s, c);
        return fin(Val());
    }
    if (n == "sym_assert_msg") {
        E c = mkEq(arg(0), mkConst(arg(0)->width, 0));
        std::string m = readStr(s, arg(1));
        reachNames["assert:" + m]++;
        if (!c->isFalse() && !report(s, t, c, "assert", m)) return S_Dead;
        return fin(Val());
    }
    if (n == "sym_fail_msg") { report(s, t, mkBool(true), "fail", readStr(s, arg(0))); return S_Dead; }
    if (n == "sym_reach") { s.reached.insert(conc(0)); return fin(Val()); }
    if (n == "sym_tid") return fin(mkConst(32, t));
    if (n == "sym_yield" || n == "sym_sleep" || n == "sym_sched_point") return fin(Val());
    if (n == "sym_acquire") {
        std::vector<Target> tg;
        if (!resolve(s, t, arg(0), 4, true, tg)) return S_Dead;
        storeBytes(s, tg, 0, mkConst(32, t + 1));
        return fin(Val());
    }
    if (n == "sym_block") return fin(Val());
    if (n == "sym_thread_create") {
        uint64_t fa = conc(0);
        if (fa <= FN_BASE || (fa - FN_BASE) / 16 > fnByIdx.size()) fatal("thread entry");
        E a = arg(1);
        int nt = s.th.size();
        if (nt >= 12) fatal("too many threads");
        s.th.emplace_back();
        pushFrame(s, nt, lower(fnByIdx[(fa - FN_BASE) / 16 - 1]), {Val(a)});
        s.th[nt].paused = true;
        return fin(mkConst(32, nt));
    }
    if (n == "sym_live_heap") return fin(mkConst(64, s.liveHeap));
    if (n == "sym_log") {
        if (rm) logLog.push_back(std::to_string(t) + " " + (arg(0)->isConst() ? std::to_string(arg(0)->val) : "?"));
        return fin(Val());
    }
    if (n == "sym_concretize") { uint64_t v = conc(0); return fin(mkConst(64, v)); }
    if (n == "sym_unwind") {
        uint64_t v = conc(0);
        return unwind(s, t, v) ? S_Next : S_Dead;
    }
    if (n == "sym_type_match") { uint64_t a = conc(0), b = conc(1); return fin(mkConst(32, typeMatches(s, a, b))); }
    if (n == "sym_dump") { fprintf(stderr, "[t%d] %s = %s\n", t, readStr(s, arg(0)).c_str(), exprStr(arg(1)).c_str()); return fin(Val()); }
    if (n == "sym_is_freed") { Obj* o = find(s, conc(0)); return fin(mkConst(32, !o || o->freed)); }
    if (n == "memcpy" || n == "memmove") {
        uint64_t k = conc(2); E d = arg(0);
        if (!copyBytes(s, t, d, arg(1), k)) return S_Dead;
        return fin(d);
    }
    if (n == "memset") {
        uint64_t k = conc(2); E d = arg(0), v = mkExtract(arg(1), 0, 8);
        if (k) {
            std::vector<Target> tg;
            if (!resolve(s, t, d, k, true, tg)) return S_Dead;
            for (uint64_t i = 0; i < k; i++) storeBytes(s, tg, i, v);
        }
        return fin(d);
    }
    fatal("unmodelled external function " + n.str() + " (" + demangle(n.str()) + ") called from\n" + whereOf(s, t, true));
}
