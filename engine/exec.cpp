#include "fine.h"
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Options {
    std::string bc, entry = "sym_main", out, replayModel;
    unsigned maxSteps = 400, maxPreempt = ~0u; uint64_t maxInstr = 20000000; unsigned maxStates = 3000000;
    bool merge = true; bool verbose = false; bool concrete = false; double timeLimit = 800; bool leak = true;
    bool cutOk = false; unsigned maxViol = 12; bool spurious = false; bool dumpStates = false; int mergePtr = 1; unsigned mergeMax = 0;
    std::string solverDump;
} opt;

[[noreturn]] static void fatal(const std::string& m)
{
    fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str());
    if (!opt.out.empty()) {
        std::ofstream o(opt.out);
        std::string e; for (char c : m) { if (c == '"' || c == '\\') e += '\\'; if (c == '\n') { e += ' '; continue; } e += c; }
        o << "{\"status\":\"error\",\"error\":\"" << e << "\"}\n";
    }
    exit(3);
}

static const uint64_t FN_BASE = 0x7f00000000ull;

struct Violation { std::string kind, msg, where, stack; std::shared_ptr<Model> model; uint32_t steps; };

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    Solver sol{getenv("SYM_Q") ? (unsigned)atoi(getenv("SYM_Q")) : 6000u};
    std::vector<std::unique_ptr<KFunc>> funcs;
    std::unordered_map<const Function*, KFunc*> kf;
    std::unordered_map<const Function*, uint64_t> fnAddr;
    std::vector<Function*> fnByIdx;
    std::unordered_map<const GlobalValue*, uint64_t> gAddr;
    std::unordered_map<uint64_t, const GlobalVariable*> gvAt;
    std::vector<const GlobalVariable*> tlsVars; std::unordered_map<const GlobalVariable*, unsigned> tlsIdx;
    std::map<std::string, int> intr;
    std::vector<Violation> viols; std::set<std::string> violSigs;
    std::set<uint64_t> reached; std::map<std::string, uint64_t> reachNames;
    uint64_t nInstr = 0, nStates = 0, nMerged = 0, nTrans = 0, nPaths = 0, nForks = 0, nKilled = 0, nCut = 0, nMergeSame = 0;
    bool incomplete = false; std::string incompleteWhy;
    std::vector<State*> work; // local work list of runThread
    std::shared_ptr<Model> rm; // model of a concrete replay
    std::vector<int> schedLog; std::vector<std::string> inputLog, logLog;
    std::map<std::string, std::vector<uint64_t>> symOwners;
    double t0 = now();
    std::vector<std::pair<PCRef, E>> leaves; std::vector<std::shared_ptr<Model>> samples; uint64_t nSel = 0, nSubsumed = 0; uint64_t nEnded = 0, finalVC = 0; std::string exhaustive = "not run";
    void leaf(State& s, E extra) { if (extra->isFalse() || leaves.size() > 200000) return; leaves.push_back({s.pc, extra}); }
    void leaf(State& s) { leaf(s, mkBool(true)); }
    std::set<std::string> fnsRun;
    std::map<E, int> typeIds;

    // ---------- memory ----------
    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
    ObjRef* slotRef(State& s, uint64_t addr, bool create)
    {
        uint64_t a = addr >> 32, sl = (addr >> 16) & 0xffff;
        if (a == 0 || a > 0x70) return nullptr;
        if (s.ar.size() <= a) { if (!create) return nullptr; s.ar.resize(a + 1); }
        auto& ch = s.ar[a].ch;
        if (ch.size() <= sl / 32) { if (!create) return nullptr; ch.resize(sl / 32 + 1); }
        auto& c = ch[sl / 32];
        if (!c) { if (!create) return nullptr; c = std::make_shared<Chunk>(); }
        else if (create && c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        if (create) c->h0 = 0;
        return &c->o[sl % 32];
    }
    Obj* find(State& s, uint64_t addr)
    {
        auto* r = slotRef(s, addr, false);
        if (!r) return nullptr;
        if (*r) return r->get();
        // a large object may span several slots
        for (int k = 1; k < 64; k++) {
            if (((addr >> 16) & 0xffff) < (uint64_t)k) break;
            auto* q = slotRef(s, addr - ((uint64_t)k << 16), false);
            if (q && *q) return (*q)->addr + (*q)->size > addr ? q->get() : nullptr;
        }
        return nullptr;
    }
    Obj* findW(State& s, uint64_t addr)
    {
        Obj* o = find(s, addr);
        if (!o) return nullptr;
        ObjRef* r = slotRef(s, o->addr, true);
        if (r->use_count() > 1) *r = std::make_shared<Obj>(**r);
        (*r)->h0 = 0;
        return r->get();
    }
    uint64_t allocAt(State& s, uint64_t addr, uint64_t size, ObjKind k, uint8_t fill)
    {
        auto o = std::make_shared<Obj>();
        o->addr = addr; o->size = size; o->kind = k; o->b.assign(size, fill);
        *slotRef(s, addr, true) = o;
        return addr;
    }
    unsigned siteDepth = getenv("SYM_SITE") ? atoi(getenv("SYM_SITE")) : 2;
    std::unordered_map<uint64_t, unsigned> heapSites;
    std::map<std::tuple<int, unsigned, unsigned>, unsigned> heapSlots;
    std::vector<unsigned> heapNext;
    uint64_t heapAlloc(State& s, int t, uint64_t size, uint8_t fill)
    {
        if (size > (8u << 20)) fatal("allocation of " + std::to_string(size) + " bytes is over the engine limit");
        Thread& T = s.th[t];
        // The address depends on the call site, the size and the number of earlier allocations there, so that paths which
        // allocate the same objects in another order agree on their addresses.  No address is used twice on a path.
        uint64_t h = mix(0x51ed, size);
        unsigned depth = 0;
        for (size_t i = T.st.size(); i-- > 0 && depth < siteDepth; depth++) h = mix(h, ((uint64_t)T.st[i]->f->id << 32) | T.st[i]->pc);
        auto [site, isNew] = heapSites.try_emplace(h, (unsigned)heapSites.size());
        if (T.heapCnt.size() <= site->second) T.heapCnt.resize(site->second + 1);
        unsigned k = T.heapCnt[site->second]++;
        if (k == 0xffff) fatal("heap site exhausted");
        auto [sl, isNewSlot] = heapSlots.try_emplace({t, site->second, k}, 0u);
        if (isNewSlot) {
            if (heapNext.size() <= (size_t)t) heapNext.resize(t + 1, 1000);
            sl->second = heapNext[t];
            heapNext[t] += 1 + (size >> 16);
            if (heapNext[t] >= 65000) fatal("heap arena exhausted");
        }
        uint64_t addr = ((uint64_t)(2 + 2 * t) << 32) | ((uint64_t)sl->second << 16);
        allocAt(s, addr, size, K_Heap, fill);
        slotRef(s, addr, true)->get()->owner = t;
        s.liveHash ^= (addr * 0x9e3779b97f4a7c15ull) ^ (addr >> 7);
        s.liveHeap++;
        return addr;
    }
    uint64_t stackAlloc(State& s, int t, uint64_t size)
    {
        Thread& T = s.th[t];
        uint64_t addr = ((uint64_t)(3 + 2 * t) << 32) | ((uint64_t)T.sp << 16);
        T.sp += 1 + (size >> 16);
        if (T.sp >= 65000) fatal("stack arena exhausted (unbounded recursion?)");
        allocAt(s, addr, size, K_Stack, 0xAA);
        return addr;
    }
    void stackPop(State& s, int t, unsigned base)
    {
        Thread& T = s.th[t];
        for (unsigned i = base; i < T.sp; i++) {
            uint64_t addr = ((uint64_t)(3 + 2 * t) << 32) | ((uint64_t)i << 16);
            auto* r = slotRef(s, addr, false);
            if (r && *r) slotRef(s, addr, true)->reset();
        }
        T.sp = base;
    }
    // a symbolic byte is a reference to byte b[i] of the term s[i], so whole words are read back without re-assembly
    static E readInt(const Obj* o, uint64_t off, unsigned n)
    {
        bool sym = false;
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
        if (!sym) {
            uint64_t v = 0;
            for (unsigned i = 0; i < n; i++) v |= (uint64_t)o->b[off + i] << (8 * i);
            return mkConst(8 * n, v);
        }
        E r = nullptr;
        for (unsigned i = 0; i < n;) {
            E p;
            if (E x = o->s[off + i]) {
                unsigned k = 1, lo = o->b[off + i];
                while (i + k < n && o->s[off + i + k] == x && o->b[off + i + k] == lo + k) k++;
                p = lo == 0 && 8 * k == x->width ? x : mkExtract(x, 8 * lo, 8 * k);
                i += k;
            } else {
                unsigned k = 0; uint64_t v = 0;
                while (i + k < n && !o->s[off + i + k]) { v |= (uint64_t)o->b[off + i + k] << (8 * k); k++; }
                p = mkConst(8 * k, v);
                i += k;
            }
            r = r ? mkConcat(p, r) : p;
        }
        return r;
    }
    static void writeInt(Obj* o, uint64_t off, E v)
    {
        unsigned n = v->width / 8;
        if (v->isConst()) {
            for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(v->val >> (8 * i));
            if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
            return;
        }
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (unsigned i = 0; i < n; i++) { o->s[off + i] = v; o->b[off + i] = i; }
    }
    // size of the unit at off that both objects can be compared and merged in
    static unsigned unitAt(const Obj* x, const Obj* y, uint32_t o)
    {
        for (unsigned n : {8u, 4u, 2u}) {
            if (o % n || o + n > x->size) continue;
            bool ok = true;
            for (const Obj* z : {x, y}) {
                if (z->s.empty()) continue;
                E e = z->s[o];
                for (unsigned i = 0; i < n && ok; i++) if (z->s[o + i] != e || (e && z->b[o + i] != i)) ok = false;
                if (e && e->width != 8 * n) ok = false;
            }
            if (ok) return n;
        }
        return 1;
    }

    // ---------- path condition ----------
    E pcE(State& s) { return s.pc ? s.pc->all : mkBool(true); }
    void addPC(State& s, E c)
    {
        if (c->isTrue()) return;
        auto n = std::make_shared<PCNode>();
        n->up = s.pc; n->c = c; n->all = mkAnd(pcE(s), c); n->depth = s.pc ? s.pc->depth + 1 : 1;
        s.pc = n;
    }
    void addSched(State& s, unsigned depth, int tid, E sc)
    {
        auto n = std::make_shared<PCNode>();
        n->up = s.pc; n->c = mkBool(true); n->all = pcE(s); n->depth = s.pc ? s.pc->depth + 1 : 1;
        n->sd = depth; n->st = tid; n->sc = sc;
        s.pc = n;
    }
    // turn a model over inputs and selectors into one over inputs and scheduling variables
    std::shared_ptr<Model> withSchedule(const PCRef& leafNode, const std::shared_ptr<Model>& m)
    {
        auto o = std::make_shared<Model>();
        o->v = m->v;
        struct Seg { PCNode* from; PCNode* stop; };
        std::vector<Seg> st{{leafNode.get(), nullptr}};
        while (!st.empty()) {
            Seg g = st.back(); st.pop_back();
            PCNode* n = g.from;
            while (n != g.stop) {
                if (n->l || n->r) {
                    bool left = m->eval(n->g) != 0;
                    st.push_back({(left ? n->l : n->r).get(), n->up.get()});
                } else if (n->sd >= 0 && n->sc && !n->sc->isTrue()) {
                    E sy = mkSym("s_" + std::to_string(n->sd), 4);
                    o->v[sy->val] = n->st;
                }
                n = n->up.get();
            }
        }
        for (uint64_t i = 0; i < symCount(); i++) if (symName(i).substr(0, 2) == "m_") o->v.erase(i);
        return o;
    }
    // the path condition with scheduling variables and without selectors (for the exhaustiveness query)
    std::unordered_map<const PCNode*, E> fullMemo; std::unordered_map<E, E> selMap; std::unordered_map<E, E> substMemo;
    E subst(E root)
    {
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (substMemo.count(e)) { st.pop_back(); continue; }
            if (e->op == Op::Sym) { auto i = selMap.find(e); substMemo[e] = i == selMap.end() ? e : i->second; st.pop_back(); continue; }
            if (e->op == Op::Const) { substMemo[e] = e; st.pop_back(); continue; }
            bool ready = true;
            for (E x : {e->a, e->b, e->c}) if (x && !substMemo.count(x)) { st.push_back(x); ready = false; }
            if (!ready) continue;
            st.pop_back();
            E A = e->a ? substMemo[e->a] : nullptr, B = e->b ? substMemo[e->b] : nullptr, C = e->c ? substMemo[e->c] : nullptr;
            E r = e;
            if (A != e->a || B != e->b || C != e->c) switch (e->op) {
            case Op::Ite: r = mkIte(A, B, C); break;
            case Op::Extract: r = mkExtract(A, e->val, e->width); break;
            case Op::Concat: r = mkConcat(A, B); break;
            case Op::ZExt: r = mkZExt(A, e->width); break;
            case Op::SExt: r = mkSExt(A, e->width); break;
            default: r = mkBin(e->op, A, B); break;
            }
            substMemo[e] = r;
        }
        return substMemo[root];
    }
    // conjunction of the nodes from `from` up to (excluding) `stop`
    E fullRel(PCNode* from, PCNode* stop)
    {
        std::vector<PCNode*> ns;
        for (PCNode* n = from; n != stop; n = n->up.get()) ns.push_back(n);
        E r = mkBool(true);
        for (size_t i = ns.size(); i-- > 0;) r = mkAnd(r, fullLocal(ns[i]));
        return r;
    }
    E fullLocal(PCNode* n)
    {
        auto it = fullMemo.find(n);
        if (it != fullMemo.end()) return it->second;
        E r;
        if (n->l || n->r) {
            E L = fullRel(n->l.get(), n->up.get()), R2 = fullRel(n->r.get(), n->up.get());
            if (n->fresh) selMap[n->g] = L;
            r = mkOr(L, R2);
        } else if (n->sd >= 0) r = n->sc ? n->sc : mkBool(true);
        else r = subst(n->c);
        return fullMemo[n] = r;
    }
    bool feasible(State& s, E c)
    {
        if (c->isTrue()) return true;
        if (c->isFalse()) return false;
        Res r = sol.check(pcE(s), c);
        if (r == Res::Unknown) { fatal("solver returned unknown (time limit per query)"); }
        return r == Res::Sat;
    }

    // ---------- reporting ----------
    std::string whereOf(State& s, int t, bool all)
    {
        std::string r;
        if (t < 0) return "";
        auto& st = s.th[t].st;
        for (int i = (int)st.size() - 1; i >= 0; i--) {
            Frame& f = *st[i];
            unsigned pc = f.pc < f.f->insts.size() ? f.pc : f.f->insts.size() - 1;
            std::string nm = demangle(f.f->F->getName().str());
            std::string loc;
            if (auto dl = f.f->insts[pc].I->getDebugLoc()) loc = dl->getFilename().str() + ":" + std::to_string(dl.getLine());
            if (!all) { return nm.substr(0, 120) + " " + loc; }
            r += "    " + nm.substr(0, 160) + " " + loc + "\n";
        }
        return r;
    }
    // returns false when the path ends here
    bool report(State& s, int t, E cond, const std::string& kind, const std::string& msg)
    {
        std::shared_ptr<Model> m;
        Res r = sol.check(pcE(s), cond, &m);
        if (r == Res::Unknown) fatal("solver returned unknown (time limit per query)");
        if (r == Res::Sat) {
            std::string sig = kind + "|" + msg;
            if (violSigs.insert(sig).second) {
                Violation v{kind, msg, whereOf(s, t, false), "", m ? withSchedule(s.pc, m) : m, s.steps};
                for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i].done) v.stack += "  thread " + std::to_string(i) + ((int)i == t ? " (*)" : "") + ":\n" + whereOf(s, i, true);
                viols.push_back(v);
                if (opt.verbose || opt.concrete) fprintf(stderr, "VIOL %s: %s at %s\n%s", kind.c_str(), msg.c_str(), v.where.c_str(), v.stack.c_str());
            }
        }
        E n = mkNot(cond);
        if (n->isFalse()) return false;
        if (!feasible(s, n)) return false;
        leaf(s, cond);
        addPC(s, n);
        return true;
    }

    // ---------- constants ----------
    Val evalConst(const Constant* c)
    {
        Type* ty = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) fatal("wide integer constant"); fatal("wide integer type"); }
            return mkConst(ci->getBitWidth(), ci->getZExtValue());
        }
        if (isa<ConstantPointerNull>(c)) return mkConst(64, 0);
        if (auto* f = dyn_cast<ConstantFP>(c)) {
            unsigned w = ty->getPrimitiveSizeInBits();
            if (w > 64) return mkConst(64, 0);
            return mkConst(w, f->getValueAPF().bitcastToAPInt().getZExtValue());
        }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(ty);
        if (auto* f = dyn_cast<Function>(c)) return mkConst(64, addrOfFn(f));
        if (auto* g = dyn_cast<GlobalVariable>(c)) return mkConst(64, gAddr.at(g));
        if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* g = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!g->accumulateConstantOffset(*DL, off)) fatal("constant gep");
                return mkBin(Op::Add, evalConst(ce->getOperand(0)).e, mkConst(64, off.getSExtValue()));
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
                return mkTruncOrZExt(evalConst(ce->getOperand(0)).e, ty->isPointerTy() ? 64 : ty->getIntegerBitWidth());
            case Instruction::Add: return mkBin(Op::Add, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
            case Instruction::Sub: return mkBin(Op::Sub, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
            case Instruction::ICmp: {
                E a = evalConst(ce->getOperand(0)).e, b = evalConst(ce->getOperand(1)).e;
                if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkEq(a, b);
                if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkEq(a, b));
                break;
            }
            default: break;
            }
            fatal(std::string("constant expression ") + ce->getOpcodeName());
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (auto& o : ca->operands()) v.agg->push_back(evalConst(cast<Constant>(o)));
            return v;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
            return v;
        }
        std::string s; raw_string_ostream os(s); c->print(os);
        fatal("unsupported constant " + s);
    }
    unsigned bitsOf(Type* t)
    {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) fatal("integer wider than 64 bits"); return t->getIntegerBitWidth(); }
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 64;
        std::string s; raw_string_ostream os(s); t->print(os);
        fatal("unsupported scalar type " + s);
    }
    Val zeroOf(Type* t)
    {
        if (t->isAggregateType() || t->isVectorTy()) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++)
                v.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()));
            return v;
        }
        return mkConst(bitsOf(t), 0);
    }
    uint64_t addrOfFn(const Function* f)
    {
        auto it = fnAddr.find(f);
        if (it != fnAddr.end()) return it->second;
        uint64_t a = FN_BASE + 16 * (fnByIdx.size() + 1);
        fnByIdx.push_back(const_cast<Function*>(f));
        fnAddr[f] = a;
        return a;
    }
    void writeConst(Obj* o, uint64_t off, const Constant* c)
    {
        Type* t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + L->getElementOffset(i).getFixedValue(), c->getAggregateElement(i));
            return;
        }
        if (t->isArrayTy() || t->isVectorTy()) {
            Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et), n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++) writeConst(o, off + i * es, c->getAggregateElement(i));
            return;
        }
        Val v = evalConst(c);
        unsigned n = DL->getTypeStoreSize(t);
        if (n > 8) return; // long double constants in globals
        writeInt(o, off, mkTruncOrZExt(v.e, n * 8));
    }

    // ---------- lowering ----------
    KFunc* lower(Function* F)
    {
        auto it = kf.find(F);
        if (it != kf.end()) return it->second;
        auto k = std::make_unique<KFunc>();
        KFunc* K = k.get();
        K->F = F; K->id = funcs.size(); K->addr = addrOfFn(F);
        funcs.push_back(std::move(k));
        kf[F] = K;
        for (auto& a : F->args()) K->regOf[&a] = K->nregs++;
        K->nargs = K->nregs;
        for (auto& bb : *F) {
            for (auto& I : bb) if (!I.getType()->isVoidTy()) K->regOf[&I] = K->nregs++;
        }
        unsigned bi = 0;
        std::unordered_map<const Constant*, int> cidx;
        for (auto& bb : *F) {
            K->bbIdx[&bb] = bi;
            K->bbStart.push_back(K->insts.size());
            for (auto& I : bb) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = ii->getIntrinsicID();
                    if (id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::donothing) continue;
                }
                KInst ki;
                ki.I = &I;
                ki.dest = I.getType()->isVoidTy() ? -1 : K->regOf[&I];
                ki.vis = 0;
                for (unsigned oi = 0; oi < I.getNumOperands(); oi++) {
                    Value* v = I.getOperand(oi);
                    if (auto* c = dyn_cast<Constant>(v)) {
                        auto f = cidx.find(c);
                        if (f == cidx.end()) {
                            bool skip = false;
                            if (isa<LandingPadInst>(I)) skip = true;
                            if (isa<ConstantTokenNone>(c)) skip = true;
                            K->consts.push_back(skip ? Val() : evalConst(c));
                            f = cidx.emplace(c, -(int)K->consts.size()).first;
                            if (skip) cidx.erase(c), ki.ops.push_back(-(int)K->consts.size());
                            else ki.ops.push_back(f->second);
                        } else ki.ops.push_back(f->second);
                    } else if (K->regOf.count(v)) ki.ops.push_back(K->regOf[v]);
                    else ki.ops.push_back(INT32_MAX); // block, metadata, inline asm
                }
                if (auto* fe = dyn_cast<FenceInst>(&I)) ki.vis = fe->getOrdering() == AtomicOrdering::Acquire; // spin loops on plain memory have one
                else if (I.isAtomic()) ki.vis = 1;
                if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* cf = cb->getCalledFunction()) {
                    StringRef n = cf->getName();
                    if (n == "sym_acquire") ki.vis = 2;
                    else if (n == "sym_block") ki.vis = 3;
                    else if (n == "sym_yield") ki.vis = 4;
                    else if (n == "sym_sleep") ki.vis = 5;
                    else if (n == "sym_sched_point") ki.vis = 1;
                }
                K->insts.push_back(ki);
                K->bbOf.push_back(bi);
            }
            bi++;
        }
        return K;
    }
    void computeLive(KFunc* K)
    {
        if (K->liveDone) return;
        K->liveDone = true;
        unsigned nb = K->bbStart.size();
        K->liveOut.assign(nb, std::vector<bool>(K->nregs, false));
        std::vector<std::vector<bool>> liveIn(nb, std::vector<bool>(K->nregs, false));
        bool ch = true;
        while (ch) {
            ch = false;
            for (int b = (int)nb - 1; b >= 0; b--) {
                unsigned st = K->bbStart[b], en = (unsigned)b + 1 < nb ? K->bbStart[b + 1] : K->insts.size();
                std::vector<bool> live(K->nregs, false);
                const BasicBlock* BB = K->insts[st].I->getParent();
                for (auto* S : successors(BB)) {
                    unsigned sb = K->bbIdx[S];
                    for (unsigned r = 0; r < K->nregs; r++) if (liveIn[sb][r]) live[r] = true;
                    for (auto& phi : S->phis()) {
                        Value* v = phi.getIncomingValueForBlock(BB);
                        auto f = K->regOf.find(v);
                        if (f != K->regOf.end()) live[f->second] = true;
                    }
                }
                K->liveOut[b] = live;
                for (int i = (int)en - 1; i >= (int)st; i--) {
                    auto& ki = K->insts[i];
                    if (ki.dest >= 0) live[ki.dest] = false;
                    if (!isa<PHINode>(ki.I)) for (int o : ki.ops) if (o >= 0 && o != INT32_MAX) live[o] = true;
                }
                if (live != liveIn[b]) { liveIn[b] = live; ch = true; }
            }
        }
    }
    const std::vector<bool>& liveAt(KFunc* K, unsigned pc, bool after)
    {
        uint64_t key = (uint64_t)pc * 2 + after;
        auto it = K->liveAt.find(key);
        if (it != K->liveAt.end()) return it->second;
        computeLive(K);
        unsigned b = K->bbOf[pc];
        std::vector<bool> live = K->liveOut[b];
        unsigned en = b + 1 < K->bbStart.size() ? K->bbStart[b + 1] : K->insts.size();
        for (int i = (int)en - 1; i > (int)pc; i--) {
            auto& ki = K->insts[i];
            if (ki.dest >= 0) live[ki.dest] = false;
            for (int o : ki.ops) if (o >= 0 && o != INT32_MAX) live[o] = true;
        }
        auto& ki = K->insts[pc];
        if (ki.dest >= 0) live[ki.dest] = false;
        if (!after) for (int o : ki.ops) if (o >= 0 && o != INT32_MAX) live[o] = true;
        return K->liveAt[key] = live;
    }

    // ---------- threads ----------
    Frame& top(State& s, int t)
    {
        auto& r = s.th[t].st.back();
        if (r.use_count() > 1) r = std::make_shared<Frame>(*r);
        return *r;
    }
    void pushFrame(State& s, int t, KFunc* K, const std::vector<Val>& args)
    {
        auto f = std::make_shared<Frame>();
        f->f = K; f->pc = 0; f->spBase = s.th[t].sp;
        f->regs.resize(K->nregs);
        for (unsigned i = 0; i < K->nargs; i++) f->regs[i] = args[i];
        K->hits++;
        s.th[t].st.push_back(f);
        if (s.th[t].st.size() > 400) fatal("call depth over 400: " + K->F->getName().str());
    }
    Val& R(Frame& f, int op) { return op >= 0 ? f.regs[op] : f.f->consts[-op - 1]; }
    void jump(State& s, int t, const BasicBlock* from, const BasicBlock* to)
    {
        Frame& f = top(s, t);
        unsigned b = f.f->bbIdx[to];
        unsigned i = f.f->bbStart[b];
        std::vector<std::pair<int, Val>> upd;
        while (i < f.f->insts.size() && isa<PHINode>(f.f->insts[i].I)) {
            auto* phi = cast<PHINode>(f.f->insts[i].I);
            int idx = phi->getBasicBlockIndex(from);
            Val v = R(f, f.f->insts[i].ops[idx]);
            upd.push_back({f.f->insts[i].dest, v});
            i++;
        }
        for (auto& u : upd) f.regs[u.first] = u.second;
        f.pc = i;
    }
    void threadDone(State& s, int t) { s.th[t].done = true; if (t == 0) s.ended = true; }
    void doRet(State& s, int t, Val v)
    {
        unsigned base = s.th[t].st.back()->spBase;
        stackPop(s, t, base);
        s.th[t].st.pop_back();
        if (s.th[t].st.empty()) { threadDone(s, t); return; }
        Frame& f = top(s, t);
        auto& ki = f.f->insts[f.pc];
        if (ki.dest >= 0) f.regs[ki.dest] = v;
        if (auto* inv = dyn_cast<InvokeInst>(ki.I)) jump(s, t, inv->getParent(), inv->getNormalDest());
        else f.pc++;
    }
    int typeId(E ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
    bool typeMatches(State& s, uint64_t want, uint64_t have)
    {
        if (want == 0 || want == have) return true;
        if (have == 0) return false;
        auto it = gvAt.find(have);
        if (it == gvAt.end() || !it->second->hasInitializer()) return false;
        Obj* o = find(s, have);
        if (!o) return false;
        // the vtable pointer of the type_info names its class
        auto* st = dyn_cast<ConstantStruct>(it->second->getInitializer());
        if (!st) return false;
        std::string vt; raw_string_ostream os(vt); st->getOperand(0)->printAsOperand(os, false);
        if (vt.find("__si_class_type_info") != std::string::npos) return typeMatches(s, want, readInt(o, 16, 8)->val);
        if (vt.find("__vmi_class_type_info") != std::string::npos) {
            uint64_t n = readInt(o, 20, 4)->val;
            for (uint64_t i = 0; i < n; i++) if (typeMatches(s, want, readInt(o, 24 + 16 * i, 8)->val)) return true;
        }
        return false;
    }
    // unwind the stack of thread t with exception object exc; false: path ended
    bool unwind(State& s, int t, uint64_t exc)
    {
        Obj* h = find(s, exc - 32);
        if (!h || h->freed) fatal("unwind: no exception header");
        uint64_t ti = readInt(h, exc - 32 - h->addr, 8)->val;
        while (true) {
            stackPop(s, t, s.th[t].st.back()->spBase);
            s.th[t].st.pop_back();
            if (s.th[t].st.empty()) {
                // leave a frame for the report
                report(s, -1, mkBool(true), "terminate", "an exception escapes a thread");
                return false;
            }
            Frame& f = top(s, t);
            auto* inv = dyn_cast<InvokeInst>(f.f->insts[f.pc].I);
            if (!inv) continue;
            auto* lp = inv->getLandingPadInst();
            int sel = 0; bool match = false;
            for (unsigned i = 0; i < lp->getNumClauses() && !match; i++) {
                if (lp->isCatch(i)) {
                    uint64_t w = evalConst(lp->getClause(i)).e->val;
                    if (typeMatches(s, w, ti)) { match = true; sel = typeId(mkConst(64, w)); }
                } else { match = true; sel = -1; }
            }
            if (!match && !lp->isCleanup()) continue;
            jump(s, t, inv->getParent(), inv->getUnwindDest());
            // the landing pad is the first non-phi
            Frame& g = top(s, t);
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            v.agg->push_back(mkConst(64, exc)); v.agg->push_back(mkConst(32, (uint64_t)(int64_t)sel));
            g.regs[g.f->insts[g.pc].dest] = v;
            g.pc++;
            return true;
        }
    }

    // ---------- symbolic address resolution ----------
    struct Target { E guard; uint64_t addr; };
    enum { A_OK, A_DEAD };
    std::string addrErr(State& s, uint64_t a, uint64_t n, bool write)
    {
        Obj* o = find(s, a);
        if (!o) return a < 65536 ? "null pointer dereference" : (a >> 32) >= 3 && ((a >> 32) & 1) && (a >> 32) < 0x70 ? "access to a dead stack object" : "wild pointer dereference";
        if (o->freed) return "use after free";
        if (a - o->addr + n > o->size) return "access out of bounds";
        if (write && o->ro) return "write to constant memory";
        return "";
    }
    // returns false when the path is dead
    bool resolve(State& s, int t, E addr, uint64_t n, bool write, std::vector<Target>& out)
    {
        out.clear();
        if (addr->isConst()) {
            std::string e = addrErr(s, addr->val, n, write);
            if (!e.empty()) { report(s, t, mkBool(true), "memory", e); return false; }
            out.push_back({mkBool(true), addr->val});
            return true;
        }
        std::vector<uint64_t> lv;
        if (addr->nleaf > 1) constLeaves(addr, lv);
        else {
            E rest = mkBool(true);
            while (true) {
                std::shared_ptr<Model> m;
                Res r = sol.check(pcE(s), rest, &m);
                if (r == Res::Unknown) fatal("solver unknown");
                if (r == Res::Unsat) break;
                uint64_t v = m->eval(addr);
                lv.push_back(v);
                rest = mkAnd(rest, mkNot(mkEq(addr, mkConst(64, v))));
                if (lv.size() > 300) fatal("symbolic pointer with over 300 targets at " + whereOf(s, t, false));
            }
        }
        E bad = mkBool(false); std::string badMsg;
        for (uint64_t v : lv) {
            E g = mkEq(addr, mkConst(64, v));
            std::string e = addrErr(s, v, n, write);
            if (e.empty()) { if (!g->isFalse()) out.push_back({g, v}); }
            else if (feasible(s, g)) { if (!report(s, t, g, "memory", e)) return false; }
        }
        if (out.empty()) return false;
        if (out.size() == 1) out[0].guard = mkBool(true);
        return true;
    }
    E loadBytes(State& s, const std::vector<Target>& tg, uint64_t off, unsigned n)
    {
        E r = nullptr;
        for (int i = (int)tg.size() - 1; i >= 0; i--) {
            Obj* o = find(s, tg[i].addr);
            E v = readInt(o, tg[i].addr + off - o->addr, n);
            r = r ? mkIte(tg[i].guard, v, r) : v;
        }
        return r;
    }
    void storeBytes(State& s, const std::vector<Target>& tg, uint64_t off, E v)
    {
        for (auto& x : tg) {
            Obj* o = findW(s, x.addr);
            uint64_t p = x.addr + off - o->addr;
            if (x.guard->isTrue()) writeInt(o, p, v);
            else writeInt(o, p, mkIte(x.guard, v, readInt(o, p, v->width / 8)));
        }
    }
    Val loadType(State& s, const std::vector<Target>& tg, uint64_t off, Type* ty)
    {
        if (auto* st = dyn_cast<StructType>(ty)) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadType(s, tg, off + L->getElementOffset(i).getFixedValue(), st->getElementType(i)));
            return v;
        }
        if (ty->isArrayTy() || ty->isVectorTy()) {
            Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et), n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < n; i++) v.agg->push_back(loadType(s, tg, off + i * es, et));
            return v;
        }
        unsigned w = bitsOf(ty), n = DL->getTypeStoreSize(ty);
        if (n > 8) n = 8; // x86_fp80 kept as an opaque 64-bit payload
        return mkTruncOrZExt(loadBytes(s, tg, off, n), w);
    }
    void storeType(State& s, const std::vector<Target>& tg, uint64_t off, Type* ty, const Val& v)
    {
        if (auto* st = dyn_cast<StructType>(ty)) {
            auto* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeType(s, tg, off + L->getElementOffset(i).getFixedValue(), st->getElementType(i), (*v.agg)[i]);
            return;
        }
        if (ty->isArrayTy() || ty->isVectorTy()) {
            Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et), n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
            for (unsigned i = 0; i < n; i++) storeType(s, tg, off + i * es, et, (*v.agg)[i]);
            return;
        }
        unsigned n = DL->getTypeStoreSize(ty);
        if (n > 8) n = 8;
        storeBytes(s, tg, off, mkTruncOrZExt(v.e, 8 * n));
    }

    // ---------- forking ----------
    State* fork(State& s, E c)
    {
        nForks++;
        auto* n = new State(s);
        addPC(*n, c);
        return n;
    }
    // make operand `op` of the current instruction concrete, forking over its values; returns false when s was consumed
    bool concretizeReg(State& s, int t, int op)
    {
        Frame& f = top(s, t);
        Val v = R(f, op);
        if (v.e->isConst()) return true;
        std::vector<uint64_t> vals;
        if (v.e->nleaf > 1) {
            std::vector<uint64_t> lv; constLeaves(v.e, lv);
            for (uint64_t x : lv) if (feasible(s, mkEq(v.e, mkConst(v.e->width, x)))) vals.push_back(x);
        } else {
            E rest = mkBool(true);
            while (true) {
                std::shared_ptr<Model> m;
                Res r = sol.check(pcE(s), rest, &m);
                if (r == Res::Unknown) fatal("solver unknown");
                if (r == Res::Unsat) break;
                uint64_t x = m->eval(v.e);
                vals.push_back(x);
                rest = mkAnd(rest, mkNot(mkEq(v.e, mkConst(v.e->width, x))));
                if (vals.size() > 300) fatal("concretization with over 300 values at " + whereOf(s, t, false));
            }
        }
        if (vals.empty()) fatal("concretize: no value");
        for (size_t i = 1; i < vals.size(); i++) {
            State* n = fork(s, mkEq(v.e, mkConst(v.e->width, vals[i])));
            Frame& g = top(*n, t);
            g.regs[op] = mkConst(v.e->width, vals[i]);
            work.push_back(n);
        }
        if (vals.size() > 1) addPC(s, mkEq(v.e, mkConst(v.e->width, vals[0])));
        top(s, t).regs[op] = mkConst(v.e->width, vals[0]);
        return true;
    }

    std::string readStr(State& s, E p)
    {
        std::string r;
        if (!p->isConst()) return "?";
        uint64_t a = p->val;
        for (int i = 0; i < 200; i++) {
            Obj* o = find(s, a + i);
            if (!o || a + i - o->addr >= o->size) break;
            uint8_t c = o->b[a + i - o->addr];
            if (!c) break;
            r += (char)c;
        }
        return r;
    }
    E input(const std::string& name, unsigned w, State& s, int t)
    {
        if (rm) {
            uint64_t v = 0;
            E sy = mkSym(name, w);
            v = rm->eval(sy);
            return mkConst(w, v);
        }
        return mkSym(name, w);
    }
    enum StepRes { S_Next, S_Dead, S_Pause };
#include "step.inc"
#include "intrinsics.inc"

    // ---------- running ----------
    int liveThreads(State& s) { int n = 0; for (auto& t : s.th) n += !t.done; return n; }
    void trimDead(State& s, int t)
    {
        auto& st = s.th[t].st;
        for (size_t i = 0; i < st.size(); i++) {
            Frame* f = st[i].get();
            bool isTop = i + 1 == st.size();
            const auto& lv = liveAt(f->f, f->pc, !isTop);
            bool need = false;
            for (unsigned r = 0; r < f->regs.size(); r++) if (!lv[r] && (f->regs[r].e || f->regs[r].agg)) { need = true; break; }
            if (!need) continue;
            if (st[i].use_count() > 1) st[i] = std::make_shared<Frame>(*f);
            for (unsigned r = 0; r < st[i]->regs.size(); r++) if (!lv[r]) st[i]->regs[r] = Val();
        }
    }
    // run thread t of s (paused at a visible instruction or fresh) until every resulting state pauses again
    void runThread(StateP s0, int t, std::vector<StateP>& out)
    {
        s0->th[t].paused = false;
        for (size_t u = 0; u < s0->th.size(); u++) if ((int)u != t) s0->th[u].stale = false; // a poll loop that has looked since nobody else ran does not look again
        bool first = true;
        work.clear();
        work.push_back(s0.release());
        std::vector<State*> mine;
        State* firstState = work.back();
        while (!work.empty()) {
            State* s = work.back(); work.pop_back();
            bool go = s == firstState && first; // may execute the visible instruction it is paused at
            if (go) first = false;
            uint64_t cnt = 0;
            while (true) {
                if (s->ended || s->th[t].done) { out.emplace_back(s); break; }
                KFunc* kf0 = s->th[t].st.back()->f; unsigned pc0 = s->th[t].st.back()->pc;
                auto& ki = kf0->insts[pc0];
                if (ki.vis && !go && !s->th[t].paused) {
                    if (ki.vis >= 2 || liveThreads(*s) > 1) { s->th[t].paused = true; trimDead(*s, t); out.emplace_back(s); break; }
                }
                bool wasGo = go;
                if (ki.vis == 5) s->th[t].stale = true;
                go = false;
                s->th[t].paused = false;
                nInstr++;
                if ((nInstr & 0xfff) == 0 && now() - t0 > opt.timeLimit && !rm) { incomplete = true; incompleteWhy = "time limit"; delete s; for (auto* x : work) delete x; work.clear(); out.clear(); return; }
                if (++cnt > opt.maxInstr) { 
                    report(*s, t, mkBool(true), "livelock", "a thread runs over the instruction limit without reaching a scheduling point"); 
                    leaf(*s); delete s; break; }
                size_t w0 = work.size();
                StepRes r = step(*s, t, ki);
                if (wasGo || ki.vis) for (size_t i = w0; i < work.size(); i++) {
                    // a fork that re-executes the same visible instruction keeps the permission to run it
                    auto& fr = *work[i]->th[t].st.back();
                    if (fr.f == kf0 && fr.pc == pc0) work[i]->th[t].paused = true;
                }
                if (r == S_Dead) { leaf(*s); delete s; nKilled++; break; }
            }
        }
    }
    // note: Thread::paused doubles as "permission" for a forked state that must re-execute its visible instruction

    std::vector<uint64_t> keyOf(State& s)
    {
        std::vector<uint64_t> k;
        k.push_back(s.liveHash); k.push_back(s.liveHeap); k.push_back(s.th.size());
        if (opt.maxPreempt != ~0u) { k.push_back(s.preempt); k.push_back(s.last); }
        for (auto& t : s.th) {
            k.push_back(((uint64_t)t.done << 60) | ((uint64_t)t.stale << 61) | t.sp);
            k.push_back(((uint64_t)t.symCnt << 32) | t.st.size());
            for (auto& f : t.st) k.push_back(((uint64_t)f->f->id << 32) | f->pc);
        }
        return k;
    }
    static void objHash(const Obj& o)
    {
        if (o.h0) return;
        uint64_t a = 0x1234567, b = 0x89abcde;
        auto put = [&](uint64_t v) { a = mix(a, v); b = mix(b ^ 0x5bd1e995, v * 0xc2b2ae3d27d4eb4full); };
        put(o.addr); put(((uint64_t)o.size << 8) | (o.freed << 4) | o.kind);
        if (!o.freed) {
            size_t i = 0;
            for (; i + 8 <= o.b.size(); i += 8) { uint64_t v; memcpy(&v, &o.b[i], 8); put(v); }
            for (; i < o.b.size(); i++) put(o.b[i]);
            for (size_t j = 0; j < o.s.size(); j++) if (o.s[j]) { put(j); put(o.s[j]->id); }
        }
        o.h0 = a | 1; o.h1 = b;
    }
    std::pair<uint64_t, uint64_t> stateHash(State& s)
    {
        uint64_t a = 1, b = 2;
        auto put = [&](uint64_t v) { a = mix(a, v); b = mix(b ^ 0x5bd1e995, v * 0xc2b2ae3d27d4eb4full); };
        for (auto& ar : s.ar) {
            put(0xa11);
            for (auto& c : ar.ch) {
                if (!c) { put(0); continue; }
                if (!c->h0) {
                    uint64_t x = 3, y = 4; bool any = false;
                    for (auto& o : c->o) {
                        if (!o) { continue; }
                        objHash(*o); any = true;
                        x = mix(x, o->h0); y = mix(y ^ 0x5bd1e995, o->h1);
                    }
                    (void)any;
                    c->h0 = x | 1; c->h1 = y;
                }
                put(c->h0); put(c->h1);
            }
        }
        std::function<void(const Val&)> val = [&](const Val& v) {
            if (v.agg) { put(0xa66); for (auto& x : *v.agg) val(x); }
            else put(v.e ? v.e->id + 1 : 0);
        };
        for (auto& t : s.th) {
            put(((uint64_t)t.done << 33) | t.st.size());
            for (auto& f : t.st) { put(((uint64_t)f->f->id << 32) | f->pc); put(f->spBase); for (auto& r : f->regs) val(r); for (auto& r : f->varargs) val(r); }
        }
        return {a, b};
    }
    static E mergeE(E c, E a, E b) { return a == b ? a : mkIte(c, a, b); }
    bool mergeVal(E c, Val& a, const Val& b)
    {
        if (a.agg || b.agg) {
            if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) { if (!a.agg && !a.e) return true; return false; }
            if (a.agg == b.agg) return true;
            auto n = std::make_shared<std::vector<Val>>(*a.agg);
            for (size_t i = 0; i < n->size(); i++) if (!mergeVal(c, (*n)[i], (*b.agg)[i])) return false;
            a.agg = n;
            return true;
        }
        if (!a.e || !b.e) { if (a.e != b.e) { a.e = a.e ? a.e : b.e; } return true; }
        if (a.e->width != b.e->width) return false;
        a.e = mergeE(c, a.e, b.e);
        return true;
    }
    // merge b into a (same key); false when they must stay apart
    bool mergeInto(State& a, State& b)
    {
        // compatible memory?
        size_t na = std::max(a.ar.size(), b.ar.size());
        struct D { uint64_t addr; Obj* x; Obj* y; };
        std::vector<D> diff;
        static const std::shared_ptr<Chunk> nullChunk;
        for (size_t i = 0; i < na; i++) {
            size_t ca = i < a.ar.size() ? a.ar[i].ch.size() : 0, cb = i < b.ar.size() ? b.ar[i].ch.size() : 0;
            for (size_t j = 0; j < std::max(ca, cb); j++) {
                const auto& x = j < ca ? a.ar[i].ch[j] : nullChunk;
                const auto& y = j < cb ? b.ar[i].ch[j] : nullChunk;
                if (x == y) continue;
                for (int q = 0; q < 32; q++) {
                    Obj* ox = x ? x->o[q].get() : nullptr; Obj* oy = y ? y->o[q].get() : nullptr;
                    if (ox == oy) continue;
                    bool fx = !ox || ox->freed, fy = !oy || oy->freed;
                    if (fx && fy) continue;
                    if (fx != fy || ox->size != oy->size || ox->kind != oy->kind) return false;
                    if (ox->b == oy->b && ox->s == oy->s) continue;
                    diff.push_back({ox->addr, ox, oy});
                }
            }
        }
        // path condition: common prefix
        PCRef p = a.pc, q = b.pc;
        E ra = mkBool(true), rb = mkBool(true);
        std::vector<E> ca, cb;
        while (p != q) {
            unsigned dp = p ? p->depth : 0, dq = q ? q->depth : 0;
            if (dp >= dq && p) { if (!p->c->isTrue()) ca.push_back(p->c); p = p->up; }
            else { if (!q->c->isTrue()) cb.push_back(q->c); q = q->up; }
        }
        for (size_t i = ca.size(); i-- > 0;) ra = mkAnd(ra, ca[i]);
        for (size_t i = cb.size(); i-- > 0;) rb = mkAnd(rb, cb[i]);
        // separated by an input condition?
        bool disjoint = mkAnd(ra, rb)->isFalse();
        if (!disjoint) { std::unordered_set<E> sb(cb.begin(), cb.end()); for (E x : ca) if (sb.count(mkNot(x))) { disjoint = true; break; } }
        // count differences
        size_t nd = 0, nptr = 0;
        for (auto& d : diff) {
            for (uint32_t o = 0; o < d.x->size;) {
                unsigned n = unitAt(d.x, d.y, o);
                E u = readInt(d.x, o, n), v = readInt(d.y, o, n);
                if (u != v) {
                    nd++;
                    if (n == 8) { for (E z : {u, v}) if (z->isConst() && z->val >= 0x100000000ull && z->val < 0x8000000000ull) { nptr++; break; } }
                }
                o += n;
            }
        }
        if (nd && opt.mergePtr == 0 && nptr) return false;
        if (nd > opt.mergeMax) return false;
        bool regDiff = false;
        for (size_t t = 0; t < a.th.size() && !regDiff; t++) for (size_t i = 0; i < a.th[t].st.size() && !regDiff; i++) {
            Frame* x = a.th[t].st[i].get(); Frame* y = b.th[t].st[i].get();
            if (x != y) for (size_t r = 0; r < x->regs.size(); r++) if (x->regs[r].e != y->regs[r].e || x->regs[r].agg != y->regs[r].agg) { regDiff = true; break; }
        }
        if (regDiff && opt.mergeMax == 0) return false;
        E gd = ra; bool fresh = false;
        if (!disjoint && (nd || regDiff)) { gd = mkSym("m_" + std::to_string(nSel++), 1); fresh = true; }
        // merge registers
        std::vector<std::vector<FrameRef>> nst(a.th.size());
        for (size_t t = 0; t < a.th.size(); t++) {
            nst[t] = a.th[t].st;
            for (size_t i = 0; i < nst[t].size(); i++) {
                Frame* x = nst[t][i].get(); Frame* y = b.th[t].st[i].get();
                if (x == y) continue;
                auto nf = std::make_shared<Frame>(*x);
                if (nf->spBase != y->spBase) return false;
                for (size_t r = 0; r < nf->regs.size(); r++) if (!mergeVal(gd, nf->regs[r], y->regs[r])) return false;
                nst[t][i] = nf;
            }
        }
        for (size_t t = 0; t < a.th.size(); t++) a.th[t].st = nst[t];
        for (auto& d : diff) {
            Obj* w = findW(a, d.addr);
            Obj ox = *w;
            for (uint32_t o = 0; o < ox.size;) {
                unsigned n = unitAt(&ox, d.y, o);
                E u = readInt(&ox, o, n), v = readInt(d.y, o, n);
                if (u != v) writeInt(w, o, mkIte(gd, u, v));
                o += n;
            }
        }
        if (nd == 0) nMergeSame++;
        auto node = std::make_shared<PCNode>();
        node->up = p; node->l = a.pc; node->r = b.pc; node->g = gd; node->fresh = fresh;
        node->c = fresh ? mkIte(gd, ra, rb) : mkOr(ra, rb);
        node->all = p ? mkAnd(p->all, node->c) : node->c; node->depth = p ? p->depth + 1 : 1;
        a.pc = node;
        for (size_t t = 0; t < a.th.size(); t++) {
            auto &x = a.th[t].heapCnt, &y = b.th[t].heapCnt;
            if (x.size() < y.size()) x.resize(y.size());
            for (size_t i = 0; i < y.size(); i++) x[i] = std::max(x[i], y[i]);
        }
        for (auto x : b.reached) a.reached.insert(x);
        a.progress = std::max(a.progress, b.progress);
        return true;
    }
    // enabledness of thread t at its paused instruction
    E enabled(State& s, int t)
    {
        Thread& T = s.th[t];
        if (T.done) return mkBool(false);
        Frame& f = *T.st.back();
        auto& ki = f.f->insts[f.pc];
        if (ki.vis == 5) return mkBool(!T.stale);
        if (ki.vis != 2 && ki.vis != 3) return mkBool(true);
        E p = R(f, ki.ops[0]).e;
        std::vector<Target> tg;
        if (!resolve(s, t, p, 4, false, tg)) return nullptr;
        E v = loadBytes(s, tg, 0, 4);
        E z = mkEq(v, mkConst(32, 0));
        return ki.vis == 2 ? z : mkNot(z);
    }
    void endState(State& s)
    {
        leaf(s);
        nEnded++;
        if (samples.size() < 24 || (nEnded % 37 == 0 && samples.size() < 64)) {
            std::shared_ptr<Model> m;
            if (sol.check(pcE(s), mkBool(true), &m) == Res::Sat && m) samples.push_back(withSchedule(s.pc, m));
        }
    }
    // the explored leaves together cover every assignment of the symbolic inputs and schedule variables
    void checkExhaustive()
    {
        if (rm || incomplete) return;
        if (leaves.size() > 200000) { exhaustive = "skipped (too many leaves)"; return; }
        if (nStates > 60000) { exhaustive = "skipped (too many states)"; return; }
        std::vector<E> v;
        for (auto& l : leaves) { E f = fullRel(l.first.get(), nullptr); v.push_back(mkAnd(f, subst(l.second))); }
        if (v.empty()) { exhaustive = "no leaves"; return; }
        while (v.size() > 1) {
            std::vector<E> n;
            for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(mkOr(v[i], v[i + 1]));
            if (v.size() & 1) n.push_back(v.back());
            v.swap(n);
        }
        Solver cs{3000};
        double a = now();
        Res r = cs.check(mkBool(true), mkNot(v[0]));
        sol.st.queries += cs.st.queries; sol.st.time += now() - a; sol.st.unsat += cs.st.unsat; sol.st.sat += cs.st.sat;
        exhaustive = r == Res::Unsat ? "unsat" : r == Res::Sat ? "SAT" : "unknown";
        if (r == Res::Sat) fatal("the explored paths do not cover the symbolic input space");
    }
    struct H2 { size_t operator()(const std::pair<uint64_t, uint64_t>& x) const { return x.first; } };
    std::unordered_map<std::pair<uint64_t, uint64_t>, unsigned, H2> visited; // state -> fewest preemptions it was reached with
    bool firstVisit(State& s, const std::vector<uint64_t>& k, std::pair<uint64_t, uint64_t> h)
    {
        bool bound = opt.maxPreempt != ~0u;
        for (size_t i = 0; i < k.size(); i++) if (!bound || i != 3) { h.first = mix(h.first, k[i]); h.second = mix(h.second ^ 0x5bd1e995, k[i]); }
        unsigned p = bound ? s.preempt : 0;
        auto r = visited.emplace(h, p);
        if (r.second) return true;
        if (r.first->second <= p) return false;
        r.first->second = p;
        return true;
    }
    void explore(StateP init)
    {
        std::map<std::vector<uint64_t>, std::vector<StateP>> level, next;
        std::vector<StateP> out;
        runThread(std::move(init), 0, out);
        for (auto& s : out) level[keyOf(*s)].push_back(std::move(s));
        for (unsigned depth = 0; !level.empty(); depth++) {
            next.clear();
            size_t ns = 0;
            for (auto& kv : level) ns += kv.second.size();
            if (opt.verbose) fprintf(stderr, "depth %u: %zu states, %zu control points, queries %lu (%.1fs) instr %lu exprs %zu %.1fs\n", depth, ns, level.size(), sol.st.queries, sol.st.time, nInstr, exprCount(), now() - t0);
            for (auto& kv : level)
                for (auto& sp : kv.second) {
                    nStates++;
                    if (incomplete) return;
                    if (now() - t0 > opt.timeLimit) { incomplete = true; incompleteWhy = "time limit at depth " + std::to_string(depth); return; }
                    if (nStates > opt.maxStates) { incomplete = true; incompleteWhy = "state limit at depth " + std::to_string(depth); return; }
                    if (viols.size() >= opt.maxViol) { incomplete = true; incompleteWhy = "violation limit"; return; }
                    if (sp->ended) { nPaths++; endState(*sp); for (auto r : sp->reached) reached.insert(r); continue; }
                    if (depth >= opt.maxSteps) { nCut++; leaf(*sp); for (auto r : sp->reached) reached.insert(r);
                        if (!opt.cutOk) { incomplete = true; incompleteWhy = "schedule depth bound reached: " + whereOf(*sp, 0, false); if (opt.verbose) { for (size_t i = 0; i < sp->th.size(); i++) if (!sp->th[i].done) fprintf(stderr, "thread %zu:\n%s", i, whereOf(*sp, i, true).c_str()); } return; }
                        continue; }
                    // decide enabledness, splitting the state when it is symbolic
                    std::vector<StateP> todo; todo.push_back(std::move(sp));
                    while (!todo.empty()) {
                        StateP s = std::move(todo.back()); todo.pop_back();
                        std::vector<int> en; bool split = false, dead = false;
                        for (size_t t = 0; t < s->th.size(); t++) {
                            if (s->th[t].done) continue;
                            E e = enabled(*s, t);
                            if (!e) { dead = true; break; }
                            if (!e->isConst()) {
                                bool a = feasible(*s, e), b = feasible(*s, mkNot(e));
                                if (a && b) {
                                    StateP n(fork(*s, mkNot(e)));
                                    addPC(*s, e);
                                    // memory of the flag stays symbolic; pc decides it on the next look
                                    todo.push_back(std::move(n)); todo.push_back(std::move(s));
                                    split = true; break;
                                }
                                if (!a) continue;
                            } else if (e->isFalse()) continue;
                            en.push_back(t);
                        }
                        if (dead) leaf(*s);
                        if (split || dead) continue;
                        if (en.empty()) {
                            std::string w;
                            report(*s, 0, mkBool(true), "deadlock", "no thread can make progress (lost wakeup or deadlock)");
                            leaf(*s);
                            continue;
                        }
                        if (opt.maxPreempt != ~0u && s->preempt >= opt.maxPreempt) {
                            if (std::find(en.begin(), en.end(), s->last) != en.end()) en = {s->last};
                        }
                        E sv = nullptr; std::string sn = "s_" + std::to_string(depth);
                        E rest = mkBool(true);
                        for (size_t i = 0; i < en.size(); i++) {
                            E c = mkBool(true);
                            if (en.size() > 1) {
                                if (!sv) sv = input(sn, 4, *s, 0);
                                E eq = mkEq(sv, mkConst(4, en[i]));
                                if (i + 1 < en.size()) { c = mkAnd(rest, eq); rest = mkAnd(rest, mkNot(eq)); }
                                else c = rest;
                            }
                            if (c->isFalse()) continue;
                            StateP n;
                            if (i + 1 < en.size()) n = std::make_unique<State>(*s); else n = std::move(s);
                            // pc nodes are shared so that the choices are siblings
                            addSched(*n, depth, en[i], c);
                            if (rm) schedLog.push_back(en[i]);
                            bool lastEn = std::find(en.begin(), en.end(), n->last) != en.end();
                            if (lastEn && n->last != en[i]) n->preempt++;
                            n->last = en[i];
                            n->steps = depth + 1;
                            nTrans++;
                            out.clear();
                            runThread(std::move(n), en[i], out);
                            for (auto& o : out) {
                                auto k = keyOf(*o);
                                std::pair<uint64_t, uint64_t> h{0, 0};
                                if (opt.merge && !o->ended) { h = stateHash(*o); if (opt.mergeMax == 0) { k.push_back(h.first); k.push_back(h.second); } h.first = mix(h.first, pcE(*o)->id); }
                                auto& b = next[k];
                                bool done = false;
                                if (opt.merge && !o->ended) {
                                    // the very same state was already reached by another schedule, at this depth or before
                                    if (!rm && !firstVisit(*o, k, h)) {
                                        for (auto r : o->reached) reached.insert(r);
                                        leaf(*o); nSubsumed++; continue;
                                    }
                                }
                                if (opt.merge && !o->ended) for (auto& x : b) if (mergeInto(*x, *o)) { done = true; nMerged++; break; }
                                if (o->ended && opt.merge && !b.empty()) { for (auto r : o->reached) b[0]->reached.insert(r); nPaths++; endState(*o); done = true; }
                                if (!done) b.push_back(std::move(o));
                            }
                            if (rm) break;
                        }
                    }
                }
            level.swap(next);
        }
    }
#include "main.inc"
};
#include <sys/resource.h>
int main(int argc, char** argv) { rlimit m{12ull << 30, 12ull << 30}; setrlimit(RLIMIT_AS, &m); Engine e; return e.main(argc, argv); }
