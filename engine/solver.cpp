#include "solver.h"
#include <algorithm>
#include <chrono>
#include <unordered_set>
#include <z3.h>
struct Solver::Impl {
    Z3_context c;
    Z3_solver  s = nullptr;
    std::vector<Z3_ast> memo;
    unsigned uses = 0, since = 0;
    Impl() { open(); }
    void close() // drop everything the context holds
    {
        if (s) Z3_solver_dec_ref(c, s);
        if (is) Z3_solver_dec_ref(c, is);
        s = is = nullptr;
        memo.clear(); imemo.clear(); ibad.clear();
        Z3_del_context(c);
    }
    void open()
    {
        Z3_config cfg = Z3_mk_config();
        c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
    }
    void fresh(unsigned to)
    {
        if (s) Z3_solver_dec_ref(c, s);
        Z3_solver ns = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, ns);
        s = ns;
        setTimeout(s, to);
        uses = 0;
    }
    void setTimeout(Z3_solver x, unsigned to)
    {
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), to);
        Z3_solver_set_params(c, x, p);
        Z3_params_dec_ref(c, p);
    }
    Z3_ast bv2(Z3_ast b) { return b; }
    Z3_ast tr(E root)
    {
        if (memo.size() <= root->id) memo.resize(exprCount() + 4096, nullptr);
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (memo[e->id]) { st.pop_back(); continue; }
            bool ready = true;
            for (E x : {e->a, e->b, e->c}) if (x && !memo[x->id]) { st.push_back(x); ready = false; }
            if (!ready) continue;
            st.pop_back();
            Z3_ast r = mk(e);
            Z3_inc_ref(c, r);
            memo[e->id] = r;
        }
        return memo[root->id];
    }
    // ---- the same term over the integers, when no operation in it wraps (by its range): the value read as a signed number
    std::vector<Z3_ast> imemo;
    std::vector<int8_t> ibad; // 1: not expressible, 2: expressible
    Z3_solver is = nullptr;
    unsigned  iuses = 0;
    Z3_ast num(__int128 v)
    {
        char b[64]; int i = 63; b[i] = 0;
        bool n = v < 0; if (n) v = -v;
        do { b[--i] = '0' + (int)(v % 10); v /= 10; } while (v);
        if (n) b[--i] = '-';
        return Z3_mk_numeral(c, b + i, Z3_mk_int_sort(c));
    }
    static bool fitsIn(E e, __int128 l, __int128 h)
    {
        __int128 lo = -((__int128)1 << (e->width - 1)), hi = ((__int128)1 << (e->width - 1)) - 1;
        return l >= lo && h <= hi;
    }
    Z3_ast uns(E e) // unsigned reading
    {
        Z3_ast x = imemo[e->id];
        if (e->lo >= 0) return x;
        Z3_ast v[2] = {x, num((__int128)1 << e->width)};
        return Z3_mk_ite(c, Z3_mk_lt(c, x, num(0)), Z3_mk_add(c, 2, v), x);
    }
    Z3_ast bnum(E e) { return Z3_mk_ite(c, imemo[e->id], num(1), num(0)); }
    Z3_ast sgn(Z3_ast u, unsigned w) // signed reading of an unsigned value
    {
        Z3_ast v[2] = {u, num((__int128)1 << w)};
        return Z3_mk_ite(c, Z3_mk_lt(c, u, num((__int128)1 << (w - 1))), u, Z3_mk_sub(c, 2, v));
    }
    std::unordered_map<uint64_t, Z3_ast> isyms;
    std::vector<Z3_ast> bounds; // of the integer symbols
    Z3_ast imk(E e)
    {
        E a = e->a, b = e->b;
        Z3_ast A = a ? imemo[a->id] : nullptr, B = b ? imemo[b->id] : nullptr, C = e->c ? imemo[e->c->id] : nullptr;
        bool bl = e->width == 1;
        Z3_ast v[2] = {A, B};
        switch (e->op) {
        case Op::Const: return bl ? (e->val ? Z3_mk_true(c) : Z3_mk_false(c)) : num(sextW(e->val, e->width));
        case Op::Sym: {
            Z3_ast x = Z3_mk_const(c, Z3_mk_string_symbol(c, symName(e->val).c_str()), bl ? Z3_mk_bool_sort(c) : Z3_mk_int_sort(c));
            if (bl) return x;
            return sgn(x, e->width); // x: the unsigned value
        }
        case Op::And: return bl ? Z3_mk_and(c, 2, v) : nullptr;
        case Op::Or: return bl ? Z3_mk_or(c, 2, v) : nullptr;
        case Op::Xor: return !bl ? nullptr : b->isTrue() ? Z3_mk_not(c, A) : Z3_mk_xor(c, A, B);
        case Op::Eq: return Z3_mk_eq(c, A, B);
        case Op::Ite: return Z3_mk_ite(c, A, B, C);
        case Op::Slt: return a->width == 1 ? nullptr : Z3_mk_lt(c, A, B);
        case Op::Sle: return a->width == 1 ? nullptr : Z3_mk_le(c, A, B);
        case Op::Ult: return a->width == 1 ? nullptr : Z3_mk_lt(c, uns(a), uns(b));
        case Op::Ule: return a->width == 1 ? nullptr : Z3_mk_le(c, uns(a), uns(b));
        case Op::Add: return !bl && fitsIn(e, (__int128)a->lo + b->lo, (__int128)a->hi + b->hi) ? Z3_mk_add(c, 2, v) : nullptr;
        case Op::Sub: return !bl && fitsIn(e, (__int128)a->lo - b->hi, (__int128)a->hi - b->lo) ? Z3_mk_sub(c, 2, v) : nullptr;
        case Op::Mul:
            if (bl || !b->isConst()) return nullptr;
            { __int128 k = b->lo, l = k * a->lo, h = k * a->hi; if (l > h) std::swap(l, h); return fitsIn(e, l, h) ? Z3_mk_mul(c, 2, v) : nullptr; }
        case Op::Shl:
            if (bl || !b->isConst() || b->val > 40) return nullptr;
            { __int128 k = (__int128)1 << b->val; v[1] = num(k); return fitsIn(e, k * a->lo, k * a->hi) ? Z3_mk_mul(c, 2, v) : nullptr; }
        case Op::SDiv: case Op::UDiv: case Op::SRem: case Op::URem: {
            if (bl || !b->isConst() || b->lo <= 0) return nullptr;
            if (a->lo < 0 && (e->op == Op::UDiv || e->op == Op::URem)) {
                if (b->lo < 2) return nullptr;
                Z3_ast u = uns(a);
                return e->op == Op::UDiv ? Z3_mk_div(c, u, B) : Z3_mk_mod(c, u, B);
            }
            bool div = e->op == Op::SDiv || e->op == Op::UDiv;
            Z3_ast p = div ? Z3_mk_div(c, A, B) : Z3_mk_mod(c, A, B);
            if (a->lo >= 0) return p;
            Z3_ast m = Z3_mk_unary_minus(c, A), n = Z3_mk_unary_minus(c, div ? Z3_mk_div(c, m, B) : Z3_mk_mod(c, m, B));
            return Z3_mk_ite(c, Z3_mk_ge(c, A, num(0)), p, n);
        }
        case Op::SExt: if (a->width == 1) return Z3_mk_ite(c, A, num(-1), num(0)); return A;
        case Op::ZExt:
            if (a->width == 1) return bnum(a);
            if (a->op == Op::Sym) return Z3_mk_const(c, Z3_mk_string_symbol(c, symName(a->val).c_str()), Z3_mk_int_sort(c));
            return uns(a);
        case Op::Extract:
            if (bl || e->val) return nullptr;
            if (fitsIn(e, a->lo, a->hi)) return A;
            return nullptr;
        default: return nullptr;
        }
    }
    bool itr(E root)
    {
        if (imemo.size() <= root->id) { imemo.resize(exprCount() + 4096, nullptr); ibad.resize(imemo.size(), 0); }
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (ibad[e->id]) { st.pop_back(); continue; }
            bool ready = true, bad = false;
            for (E x : {e->a, e->b, e->c}) if (x) { if (!ibad[x->id]) { st.push_back(x); ready = false; } else if (ibad[x->id] == 1) bad = true; }
            if (!bad && !ready) continue;
            st.erase(std::find(st.begin(), st.end(), e), st.end());
            Z3_ast r = bad ? nullptr : imk(e);
            if (!r) { static bool dbg = getenv("SYM_SLOW"); if (dbg && !bad) fprintf(stderr, "NOLIA %s [%lld,%lld] [%lld,%lld]\n", exprStr(e, 3).c_str(), e->a ? (long long)e->a->lo : 0, e->a ? (long long)e->a->hi : 0, e->b ? (long long)e->b->lo : 0, e->b ? (long long)e->b->hi : 0); ibad[e->id] = 1; continue; }
            Z3_inc_ref(c, r);
            imemo[e->id] = r; ibad[e->id] = 2;
        }
        return ibad[root->id] == 2;
    }
    bool arithmetic(E root) // some arithmetic on wide terms, and few enough nodes
    {
        std::vector<E> st{root};
        std::unordered_set<uint32_t> seen;
        bool r = false;
        while (!st.empty()) {
            E e = st.back(); st.pop_back();
            if (!e || !seen.insert(e->id).second) continue;
            if ((e->op == Op::Add || e->op == Op::Sub || e->op == Op::Mul) && e->width >= 12) r = true;
            st.push_back(e->a); st.push_back(e->b); st.push_back(e->c);
        }
        if (r) for (uint32_t i : seen) { E e = exprAt(i); if (e->op == Op::Sym && e->width > 1) { bnds.push_back(e); } }
        return r;
    }
    std::vector<E> bnds;
    void ifresh(unsigned to)
    {
        if (is) Z3_solver_dec_ref(c, is);
        is = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_LIA"));
        Z3_solver_inc_ref(c, is);
        setTimeout(is, to);
        iuses = 0;
    }
    Z3_ast asBV(E e) // width-1 terms are booleans; convert
    {
        Z3_ast x = memo[e->id];
        if (e->width != 1) return x;
        Z3_sort s1 = Z3_mk_bv_sort(c, 1);
        return Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
    }
    Z3_ast toBool(Z3_ast bv) { return Z3_mk_eq(c, bv, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); }
    Z3_ast mk(E e)
    {
        Z3_ast A = e->a ? memo[e->a->id] : nullptr, B = e->b ? memo[e->b->id] : nullptr, C = e->c ? memo[e->c->id] : nullptr;
        bool bl = e->width == 1;
        switch (e->op) {
        case Op::Const:
            if (bl) return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
            return Z3_mk_unsigned_int64(c, e->val, Z3_mk_bv_sort(c, e->width));
        case Op::Sym:
            return Z3_mk_const(c, Z3_mk_string_symbol(c, symName(e->val).c_str()), bl ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->width));
        case Op::And: { if (!bl) return Z3_mk_bvand(c, A, B); Z3_ast v[2] = {A, B}; return Z3_mk_and(c, 2, v); }
        case Op::Or: { if (!bl) return Z3_mk_bvor(c, A, B); Z3_ast v[2] = {A, B}; return Z3_mk_or(c, 2, v); }
        case Op::Xor: {
            if (!bl) return Z3_mk_bvxor(c, A, B);
            if (e->b->isTrue()) return Z3_mk_not(c, A);
            return Z3_mk_xor(c, A, B);
        }
        case Op::Eq: return Z3_mk_eq(c, A, B);
        case Op::Ite: return Z3_mk_ite(c, A, B, C);
        case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
            Z3_ast x = asBV(e->a), y = asBV(e->b);
            return e->op == Op::Ult ? Z3_mk_bvult(c, x, y) : e->op == Op::Ule ? Z3_mk_bvule(c, x, y) : e->op == Op::Slt ? Z3_mk_bvslt(c, x, y) : Z3_mk_bvsle(c, x, y);
        }
        case Op::Concat: return Z3_mk_concat(c, asBV(e->a), asBV(e->b));
        case Op::Extract: { Z3_ast r = Z3_mk_extract(c, e->val + e->width - 1, e->val, asBV(e->a)); return bl ? toBool(r) : r; }
        case Op::ZExt: return Z3_mk_zero_ext(c, e->width - e->a->width, asBV(e->a));
        case Op::SExt: return Z3_mk_sign_ext(c, e->width - e->a->width, asBV(e->a));
        default: break;
        }
        Z3_ast x = asBV(e->a), y = asBV(e->b), r;
        switch (e->op) {
        case Op::Add: r = Z3_mk_bvadd(c, x, y); break;
        case Op::Sub: r = Z3_mk_bvsub(c, x, y); break;
        case Op::Mul: r = Z3_mk_bvmul(c, x, y); break;
        case Op::UDiv: r = Z3_mk_bvudiv(c, x, y); break;
        case Op::SDiv: r = Z3_mk_bvsdiv(c, x, y); break;
        case Op::URem: r = Z3_mk_bvurem(c, x, y); break;
        case Op::SRem: r = Z3_mk_bvsrem(c, x, y); break;
        case Op::Shl: r = Z3_mk_bvshl(c, x, y); break;
        case Op::LShr: r = Z3_mk_bvlshr(c, x, y); break;
        case Op::AShr: r = Z3_mk_bvashr(c, x, y); break;
        default: fprintf(stderr, "bad op\n"); abort();
        }
        return bl ? toBool(r) : r;
    }
};
Solver::Solver(unsigned to) : p(new Impl), timeoutMs(to) { p->fresh(to); }
Solver::~Solver() {}
Res Solver::check(E pc, E cond, std::shared_ptr<Model>* m)
{
    E q = mkAnd(pc, cond);
    if (q->isFalse()) return Res::Unsat;
    auto it = cache.find(q->id);
    if (it != cache.end() && (it->second.first != Res::Sat || !m || it->second.second)) {
        st.cacheHits++;
        if (m) *m = it->second.second;
        return it->second.first;
    }
    for (auto& mm : models)
        if (mm->eval(q)) {
            st.modelHits++;
            cache[q->id] = {Res::Sat, mm};
            if (m) *m = mm;
            return Res::Sat;
        }
    auto t0 = std::chrono::steady_clock::now();
    if (++p->since > 50 && (p->since = 0, Z3_get_estimated_alloc_size() > (1ull << 30))) { p->close(); p->open(); p->fresh(timeoutMs); }
    Z3_lbool r = Z3_L_UNDEF;
    Z3_solver zs = nullptr;
    bool alt = false, lia = false, pushed = false;
    p->bnds.clear();
    if (p->arithmetic(q) && p->itr(q)) {
        lia = true;
        if (!p->is || ++p->iuses > 300) p->ifresh(4000);
        Z3_solver_push(p->c, p->is);
        Z3_solver_assert(p->c, p->is, p->imemo[q->id]);
        for (E e : p->bnds) {
            Z3_ast x = Z3_mk_const(p->c, Z3_mk_string_symbol(p->c, symName(e->val).c_str()), Z3_mk_int_sort(p->c));
            Z3_solver_assert(p->c, p->is, Z3_mk_ge(p->c, x, p->num(0)));
            Z3_solver_assert(p->c, p->is, Z3_mk_lt(p->c, x, p->num((__int128)1 << e->width)));
        }
        zs = p->is;
        r = Z3_solver_check(p->c, p->is);
        if (r == Z3_L_UNDEF) { Z3_solver_pop(p->c, p->is, 1); p->ifresh(4000); lia = false; }
    }
    if (r == Z3_L_UNDEF) {
        if (++p->uses > 300) p->fresh(timeoutMs);
        Z3_solver_push(p->c, p->s);
        pushed = true;
        Z3_solver_assert(p->c, p->s, p->tr(q));
        r = Z3_solver_check(p->c, p->s);
        zs = p->s;
    }
    if (r == Z3_L_UNDEF) {
        // last attempt: a fresh bit-blasting solver
        alt = true;
        Z3_tactic t = Z3_mk_tactic(p->c, "qfbv");
        Z3_tactic_inc_ref(p->c, t);
        zs = Z3_mk_solver_from_tactic(p->c, t);
        Z3_solver_inc_ref(p->c, zs);
        Z3_tactic_dec_ref(p->c, t);
        p->setTimeout(zs, 60000);
        Z3_solver_assert(p->c, zs, p->tr(q));
        r = Z3_solver_check(p->c, zs);
    }
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    std::shared_ptr<Model> mod;
    if (res == Res::Sat) {
        mod = std::make_shared<Model>();
        Z3_model zm = Z3_solver_get_model(p->c, zs);
        Z3_model_inc_ref(p->c, zm);
        unsigned n = Z3_model_get_num_consts(p->c, zm);
        std::unordered_map<std::string, uint64_t> vals;
        for (unsigned i = 0; i < n; i++) {
            Z3_func_decl d = Z3_model_get_const_decl(p->c, zm, i);
            Z3_ast a = Z3_model_get_const_interp(p->c, zm, d);
            if (!a) continue;
            uint64_t v = 0;
            Z3_lbool bv = Z3_get_bool_value(p->c, a);
            if (bv == Z3_L_TRUE) v = 1;
            else if (bv == Z3_L_FALSE) v = 0;
            else if (!Z3_get_numeral_uint64(p->c, a, &v)) continue;
            vals[Z3_get_symbol_string(p->c, Z3_get_decl_name(p->c, d))] = v;
        }
        Z3_model_dec_ref(p->c, zm);
        for (uint64_t i = 0; i < symCount(); i++) { auto f = vals.find(symName(i)); if (f != vals.end()) mod->v[i] = f->second; }
        if (!mod->eval(q)) { fprintf(stderr, "solver model does not satisfy the query (translation error)\n"); exit(3); }
        models.push_front(mod);
        if (models.size() > 12) {
            std::vector<uint64_t>().swap(models.back()->memo); std::vector<uint8_t>().swap(models.back()->have);
            models.pop_back();
        }
    }
    if (alt) Z3_solver_dec_ref(p->c, zs);
    if (pushed) Z3_solver_pop(p->c, p->s, 1);
    if (lia) Z3_solver_pop(p->c, p->is, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    static const char* slow = getenv("SYM_SLOW");
    if (slow && dt > atof(slow)) {
        std::unordered_map<int, int> ops; std::vector<E> todo{q}; std::unordered_map<uint32_t, bool> seen;
        while (!todo.empty()) { E e = todo.back(); todo.pop_back(); if (!e || seen[e->id]) continue; seen[e->id] = true; ops[(int)e->op * 100 + e->width]++; todo.push_back(e->a); todo.push_back(e->b); todo.push_back(e->c); }
        fprintf(stderr, "SLOW %.2fs res %d alt %d depth %u nodes %zu:", dt, (int)res, alt + 10 * lia, q->depth, seen.size());
        for (auto& [o, n] : ops) if (o / 100 > 1 && n > 2) fprintf(stderr, " %d/%d x%d", o / 100, o % 100, n);
        fprintf(stderr, "\n  %s\n", exprStr(cond, 7).substr(0, 900).c_str());
    }
    st.queries++; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
    (res == Res::Sat ? st.sat : res == Res::Unsat ? st.unsat : st.unknown)++;
    cache[q->id] = {res, mod};
    if (m) *m = mod;
    return res;
}
