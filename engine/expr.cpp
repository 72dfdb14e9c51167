#include "expr.h"
#include <algorithm>
#include <deque>

E mkIte(E c, E a, E b);
namespace {
struct Key {
    Op op; uint8_t w; uint64_t val; E a, b, c;
    bool operator==(const Key& o) const { return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; }
};
struct KeyH {
    size_t operator()(const Key& k) const
    {
        auto mix = [](uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h; };
        uint64_t h = (uint64_t)k.op * 131 + k.w;
        h = mix(h, k.val); h = mix(h, (uint64_t)k.a); h = mix(h, (uint64_t)k.b); h = mix(h, (uint64_t)k.c);
        return h;
    }
};
std::unordered_map<Key, E, KeyH> table;
std::deque<Expr> arena;
std::vector<std::string> symNames;
std::vector<unsigned> symWidths;
std::unordered_map<std::string, uint64_t> symIdx;

using I128 = __int128;
void ivalFull(Expr& e)
{
    e.lo = e.width >= 64 ? INT64_MIN : -(1ll << (e.width - 1));
    e.hi = e.width >= 64 ? INT64_MAX : (1ll << (e.width - 1)) - 1;
}
bool ivalSet(Expr& e, I128 l, I128 h) // false: does not fit, the full range was set
{
    ivalFull(e);
    if (l > h || l < e.lo || h > e.hi) return false;
    e.lo = (int64_t)l; e.hi = (int64_t)h;
    return true;
}
int64_t lowMask(int64_t v) { int64_t m = 1; while (m - 1 < v && m < (1ll << 62)) m <<= 1; return m - 1 < v ? INT64_MAX : m - 1; }
// max(x, k), that is ite(k' < x, x, k): its range is narrower than those of its branches
bool isClamp(const Expr& e)
{
    if (e.op != Op::Ite || e.a->op != Op::Slt || e.a->a->width != e.width) return false;
    return e.a->a->isConst() && e.a->b == e.b && e.c->isConst();
}
void ival(Expr& e)
{
    ivalFull(e);
    E a = e.a, b = e.b, c = e.c;
    unsigned w = e.width;
    switch (e.op) {
    case Op::Const: e.lo = e.hi = sextW(e.val, w); break;
    case Op::Add: ivalSet(e, (I128)a->lo + b->lo, (I128)a->hi + b->hi); break;
    case Op::Sub: ivalSet(e, (I128)a->lo - b->hi, (I128)a->hi - b->lo); break;
    case Op::Mul: {
        I128 p[4] = {(I128)a->lo * b->lo, (I128)a->lo * b->hi, (I128)a->hi * b->lo, (I128)a->hi * b->hi};
        I128 l = p[0], h = p[0];
        for (I128 x : p) { if (x < l) l = x; if (x > h) h = x; }
        ivalSet(e, l, h);
        break;
    }
    case Op::SDiv: if (b->lo == b->hi && b->lo > 0) ivalSet(e, a->lo / b->lo, a->hi / b->lo); break;
    case Op::UDiv: if (b->lo == b->hi && b->lo > 0 && a->lo >= 0) ivalSet(e, a->lo / b->lo, a->hi / b->lo); break;
    case Op::SRem: if (b->lo == b->hi && b->lo > 0) ivalSet(e, a->lo >= 0 ? 0 : std::max(a->lo, -(b->lo - 1)), a->hi <= 0 ? 0 : std::min(a->hi, b->lo - 1)); break;
    case Op::URem: if (b->lo == b->hi && b->lo > 0 && a->lo >= 0) ivalSet(e, 0, std::min(a->hi, b->lo - 1)); break;
    case Op::And:
        if (w == 1) break;
        if (a->lo >= 0 && b->lo >= 0) ivalSet(e, 0, std::min(a->hi, b->hi));
        else if (a->lo >= 0) ivalSet(e, 0, a->hi);
        else if (b->lo >= 0) ivalSet(e, 0, b->hi);
        break;
    case Op::Or: case Op::Xor: if (w > 1 && a->lo >= 0 && b->lo >= 0) ivalSet(e, 0, lowMask(std::max(a->hi, b->hi))); break;
    case Op::Shl: if (b->isConst() && b->val < 62) ivalSet(e, (I128)a->lo << b->val, (I128)a->hi << b->val); break;
    case Op::AShr: if (b->isConst() && b->val < 63) ivalSet(e, a->lo >> b->val, a->hi >> b->val); break;
    case Op::LShr: if (b->isConst() && b->val < 63 && a->lo >= 0) ivalSet(e, a->lo >> b->val, a->hi >> b->val); break;
    case Op::Extract: if (a->lo >= 0) ivalSet(e, a->lo >> e.val, a->hi >> e.val); else if (e.val == 0) ivalSet(e, a->lo, a->hi); break;
    case Op::ZExt: if (a->lo >= 0) ivalSet(e, a->lo, a->hi); else ivalSet(e, 0, ((I128)1 << a->width) - 1); break;
    case Op::SExt: ivalSet(e, a->lo, a->hi); break;
    case Op::Concat: if (a->lo >= 0) ivalSet(e, (I128)a->lo << b->width, ((I128)a->hi << b->width) + (((I128)1 << b->width) - 1)); break;
    case Op::Ite:
        if (w == 1) break;
        if (isClamp(e)) ivalSet(e, std::min(a->a->lo == INT64_MAX ? INT64_MAX : a->a->lo + 1, c->lo), std::max(b->hi, c->hi));
        else ivalSet(e, std::min(b->lo, c->lo), std::max(b->hi, c->hi));
        break;
    default: break;
    }
}
E intern(Op op, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr)
{
    Key k{op, (uint8_t)w, val, a, b, c};
    auto it = table.find(k);
    if (it != table.end()) return it->second;
    Expr e;
    e.op = op; e.width = (uint8_t)w; e.val = val; e.a = a; e.b = b; e.c = c; e.id = (uint32_t)arena.size();
    e.depth = 0;
    for (E x : {a, b, c}) if (x && x->depth + 1 > e.depth) e.depth = x->depth + 1;
    e.nleaf = 0;
    if (op == Op::Const) e.nleaf = 1;
    else if (op == Op::Ite && b->nleaf && c->nleaf) { unsigned n = b->nleaf + c->nleaf; e.nleaf = n > 200 ? 0 : (uint8_t)n; }
    ival(e);
    arena.push_back(e);
    E r = &arena.back();
    table.emplace(k, r);
    return r;
}
uint64_t foldBin(Op op, unsigned w, uint64_t x, uint64_t y)
{
    switch (op) {
    case Op::Add: return x + y;
    case Op::Sub: return x - y;
    case Op::Mul: return x * y;
    case Op::UDiv: return y ? x / y : maskW(w);
    case Op::URem: return y ? x % y : x;
    case Op::SDiv: { int64_t a = sextW(x, w), b = sextW(y, w); if (!b) return a < 0 ? 1 : maskW(w); if (b == -1) return (uint64_t)0 - (uint64_t)a; return (uint64_t)(a / b); }
    case Op::SRem: { int64_t a = sextW(x, w), b = sextW(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b); }
    case Op::And: return x & y;
    case Op::Or: return x | y;
    case Op::Xor: return x ^ y;
    case Op::Shl: return y >= w ? 0 : x << y;
    case Op::LShr: return y >= w ? 0 : x >> y;
    case Op::AShr: { int64_t a = sextW(x, w); return y >= w ? (a < 0 ? ~0ull : 0) : (uint64_t)(a >> y); }
    case Op::Eq: return x == y;
    case Op::Ult: return x < y;
    case Op::Ule: return x <= y;
    case Op::Slt: return sextW(x, w) < sextW(y, w);
    case Op::Sle: return sextW(x, w) <= sextW(y, w);
    default: abort();
    }
}
bool isCmp(Op o) { return o == Op::Eq || o == Op::Ult || o == Op::Ule || o == Op::Slt || o == Op::Sle; }
bool commut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
// a op (const) pushed through an ITE tree of constants
E pushTree1(Op op, E t, E k, bool kLeft)
{
    if (t->isConst()) return kLeft ? mkBin(op, k, t) : mkBin(op, t, k);
    return mkIte(t->a, pushTree1(op, t->b, k, kLeft), pushTree1(op, t->c, k, kLeft));
}
}

size_t exprCount() { return arena.size(); }
E exprAt(uint32_t id) { return &arena[id]; }
E mkConst(unsigned w, uint64_t v) { return intern(Op::Const, w, v & maskW(w)); }
E mkSym(const std::string& name, unsigned w)
{
    auto it = symIdx.find(name);
    uint64_t i;
    if (it != symIdx.end()) { i = it->second; if (symWidths[i] != w) { fprintf(stderr, "symbol %s width clash\n", name.c_str()); exit(3);} }
    else { i = symNames.size(); symNames.push_back(name); symWidths.push_back(w); symIdx.emplace(name, i); }
    return intern(Op::Sym, w, i);
}
const std::string& symName(uint64_t i) { return symNames[i]; }
unsigned symWidth(uint64_t i) { return symWidths[i]; }
size_t symCount() { return symNames.size(); }

E mkNot(E a)
{
    return mkBin(Op::Xor, a, mkConst(a->width, ~0ull));
}
static bool isNotOf(E x, E y) // x == !y for width 1
{
    return x->op == Op::Xor && x->b->isConst() && x->b->val == maskW(x->width) && x->a == y;
}
static bool compl1(E x, E y) { return isNotOf(x, y) || isNotOf(y, x); }
E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

// Linear normal form: e = sum coef*term + k, where no operation on the way overflows.
namespace {
struct Lin { std::vector<std::pair<E, I128>> t; I128 k = 0; unsigned leaves = 0; bool ok = true; };
bool fits(unsigned w, I128 l, I128 h) { Expr f; f.width = (uint8_t)w; ivalFull(f); return l >= f.lo && h <= f.hi; }
void linAdd(Lin& L, E e, I128 m, int depth)
{
    if (!L.ok) return;
    if (e->isConst()) { L.k += m * sextW(e->val, e->width); return; }
    E a = e->a, b = e->b;
    if (depth < 40) switch (e->op) {
    case Op::Add: if (fits(e->width, (I128)a->lo + b->lo, (I128)a->hi + b->hi)) { linAdd(L, a, m, depth + 1); linAdd(L, b, m, depth + 1); return; } break;
    case Op::Sub: if (fits(e->width, (I128)a->lo - b->hi, (I128)a->hi - b->lo)) { linAdd(L, a, m, depth + 1); linAdd(L, b, -m, depth + 1); return; } break;
    case Op::Mul:
        if (b->isConst() && (b->lo > 0 ? fits(e->width, (I128)a->lo * b->lo, (I128)a->hi * b->lo) : fits(e->width, (I128)a->hi * b->lo, (I128)a->lo * b->lo)) && b->lo < (1ll << 40) && b->lo > -(1ll << 40)) { linAdd(L, a, m * b->lo, depth + 1); return; }
        break;
    case Op::Shl:
        if (b->isConst() && b->val < 40 && fits(e->width, (I128)a->lo << b->val, (I128)a->hi << b->val)) { linAdd(L, a, m << b->val, depth + 1); return; }
        break;
    case Op::SExt: linAdd(L, a, m, depth + 1); return;
    case Op::ZExt: if (a->lo >= 0) { linAdd(L, a, m, depth + 1); return; } break;
    default: break;
    }
    L.leaves++;
    for (auto& [x, c] : L.t) if (x == e) { c += m; return; }
    if (L.t.size() >= 24) { L.ok = false; return; }
    L.t.emplace_back(e, m);
}
void linNorm(Lin& L)
{
    for (size_t i = 0; i < L.t.size(); i++) { // m*(x%c) + m*c*(x/c) = m*x
        E r = L.t[i].first; I128 m = L.t[i].second;
        if (m == 0 || (r->op != Op::URem && r->op != Op::SRem) || !r->b->isConst() || r->b->lo <= 0 || (r->op == Op::URem && r->a->lo < 0)) continue;
        for (auto& [d, n] : L.t)
            if (d->op == (r->op == Op::URem ? Op::UDiv : Op::SDiv) && d->a == r->a && d->b == r->b && n == m * r->b->lo) { n = 0; L.t[i].second = 0; linAdd(L, r->a, m, 0); break; }
    }
    L.t.erase(std::remove_if(L.t.begin(), L.t.end(), [](auto& p) { return p.second == 0; }), L.t.end());
    std::sort(L.t.begin(), L.t.end(), [](auto& p, auto& q) { return p.first->id < q.first->id; });
    for (auto& [x, c] : L.t) if (c > ((I128)1 << 62) || c < -((I128)1 << 62)) L.ok = false;
    if (L.k > ((I128)1 << 62) || L.k < -((I128)1 << 62)) L.ok = false;
}
bool arith(E e) { return e->op == Op::Add || e->op == Op::Sub || e->op == Op::Mul || e->op == Op::Shl || e->op == Op::SExt || e->op == Op::ZExt; }
unsigned bitsFor(I128 l, I128 h) { unsigned n = 1; while (n < 100 && (l < -((I128)1 << (n - 1)) || h > ((I128)1 << (n - 1)) - 1)) n++; return n; }
// sum of the terms with positive (sign>0) or negative coefficients, absolute values, plus k, on w bits
E linSum(const std::vector<std::pair<E, I128>>& t, int sign, I128 k, unsigned w)
{
    E r = nullptr;
    for (auto& [x, c] : t) {
        if (sign && (c > 0) != (sign > 0)) continue;
        I128 a = sign ? (c < 0 ? -c : c) : c;
        E v = x->width >= w ? mkExtract(x, 0, w) : x->lo >= 0 ? mkZExt(x, w) : mkSExt(x, w);
        if (a != 1) v = mkBin(Op::Mul, v, mkConst(w, (uint64_t)a));
        r = r ? mkBin(Op::Add, r, v) : v;
    }
    E kc = mkConst(w, (uint64_t)k);
    return r ? mkBin(Op::Add, r, kc) : kc;
}
bool linBusy = false;
E linCmp(Op op, E a, E b)
{
    Lin L;
    linAdd(L, a, 1, 0); linAdd(L, b, -1, 0);
    unsigned before = L.leaves;
    linNorm(L);
    if (!L.ok) return nullptr;
    I128 lo = L.k, hi = L.k, g = 0;
    for (auto& [x, c] : L.t) {
        lo += c > 0 ? c * x->lo : c * x->hi; hi += c > 0 ? c * x->hi : c * x->lo;
        I128 p = g, q = c < 0 ? -c : c;
        while (q) { I128 r = p % q; p = q; q = r; }
        g = p;
    }
    bool strict = op == Op::Slt || op == Op::Ult;
    if (op == Op::Eq) { if (lo > 0 || hi < 0) return mkBool(false); if (lo == 0 && hi == 0) return mkBool(true); }
    else if (strict) { if (hi < 0) return mkBool(true); if (lo >= 0) return mkBool(false); }
    else { if (hi <= 0) return mkBool(true); if (lo > 0) return mkBool(false); }
    if (L.t.empty()) return nullptr;
    I128 k = L.k;
    if (g > 1) {
        if (op == Op::Eq) { if (k % g) return mkBool(false); k /= g; }
        else { // S + k < 0  <=>  S/g < ceil(-k/g);   S + k <= 0  <=>  S/g <= floor(-k/g)
            I128 K = -k, f = K >= 0 ? K / g : -((-K + g - 1) / g), ce = K >= 0 ? (K + g - 1) / g : -((-K) / g);
            k = -(strict ? ce : f);
        }
        for (auto& [x, c] : L.t) c /= g;
    }
    I128 pl = 0, ph = 0, nl = 0, nh = 0; // ranges of the two sides, with partial sums covered by widening to include 0
    for (auto& [x, c] : L.t) {
        I128 m = c < 0 ? -c : c, l = std::min<I128>(0, m * x->lo), h = std::max<I128>(0, m * x->hi);
        if (c > 0) pl += l, ph += h; else nl += l, nh += h;
    }
    if (k > 0) ph += k; else nh += -k;
    unsigned n = bitsFor(std::min(pl, nl), std::max(ph, nh)) ;
    if (n > 64) return nullptr;
    if (before == L.t.size() && g <= 1 && n >= a->width) return nullptr; // nothing gained
    linBusy = true;
    E x = linSum(L.t, 1, k > 0 ? k : 0, n), y = linSum(L.t, -1, k > 0 ? 0 : -k, n);
    linBusy = false;
    if (op == Op::Ult) op = Op::Slt;
    if (op == Op::Ule) op = Op::Sle;
    linBusy = true;
    E r = mkBin(op, x, y);
    linBusy = false;
    return r;
}
E linSub(E a, E b) // a - b with common terms cancelled, or null
{
    Lin L;
    linAdd(L, a, 1, 0); linAdd(L, b, -1, 0);
    unsigned before = L.leaves;
    linNorm(L);
    if (!L.ok || L.t.size() + 1 >= before) return nullptr;
    linBusy = true;
    E x = linSum(L.t, 1, L.k, a->width);
    bool neg = false;
    for (auto& [t, c] : L.t) if (c < 0) neg = true;
    if (neg) x = mkBin(Op::Sub, x, linSum(L.t, -1, 0, a->width));
    linBusy = false;
    return x;
}
E linIte(E c, E a, E b) // ite(c, s+x, s+y) = s + ite(c, x, y)
{
    Lin A, B;
    linAdd(A, a, 1, 0); linAdd(B, b, 1, 0);
    linNorm(A); linNorm(B);
    if (!A.ok || !B.ok) return nullptr;
    Lin C;
    for (auto& p : A.t) for (auto& q : B.t) if (p == q) C.t.push_back(p);
    if (C.t.empty()) return nullptr;
    auto rest = [&](Lin& X) { X.t.erase(std::remove_if(X.t.begin(), X.t.end(), [&](auto& p) { return std::find(C.t.begin(), C.t.end(), p) != C.t.end(); }), X.t.end()); };
    rest(A); rest(B);
    unsigned w = a->width;
    linBusy = true;
    // the remainders and the common part must not overflow on their own, or the ranges are useless
    E ra = linSum(A.t, 0, A.k, w), rb = linSum(B.t, 0, B.k, w), cc = linSum(C.t, 0, 0, w);
    linBusy = false;
    if (ra == a || rb == b) return nullptr;
    return mkBin(Op::Add, cc, mkIte(c, ra, rb));
}
}

// x + m is x%c, or x - m is, or null
static E remOf(E x, E m, bool sub)
{
    if (m->op != Op::Mul || !m->b->isConst() || (m->a->op != Op::UDiv && m->a->op != Op::SDiv) || m->a->a != x || !m->a->b->isConst()) return nullptr;
    uint64_t c = sub ? m->b->val : (0 - m->b->val) & maskW(x->width);
    return c == m->a->b->val && m->a->b->lo > 0 ? mkBin(m->a->op == Op::UDiv ? Op::URem : Op::SRem, x, m->a->b) : nullptr;
}
// m + r is x when m = (x/c)*c and r = x%c
static E wholeOf(E m, E r)
{
    if (m->op != Op::Mul || !m->b->isConst() || !((m->a->op == Op::UDiv && r->op == Op::URem) || (m->a->op == Op::SDiv && r->op == Op::SRem))) return nullptr;
    return m->a->a == r->a && m->a->b == r->b && m->b == r->b ? r->a : nullptr;
}
// (x/c)*c is at most x
static bool roundedDown(E m, E x) { return m->op == Op::Mul && m->b->isConst() && (m->a->op == Op::UDiv || (m->a->op == Op::SDiv && x->lo >= 0 && m->b->lo > 0)) && m->a->a == x && m->a->b == m->b; }

E mkBin(Op op, E a, E b)
{
    if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %d %d\n", (int)op, a->width, b->width); abort(); }
    unsigned w = a->width, rw = isCmp(op) ? 1 : w;
    if (a->isConst() && b->isConst()) return mkConst(rw, foldBin(op, w, a->val, b->val));
    if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    uint64_t M = maskW(w);
    switch (op) {
    case Op::Add:
        if (b->isConst() && b->val == 0) return a;
        if (E r = wholeOf(a, b)) return r;
        if (E r = wholeOf(b, a)) return r;
        if (E r = remOf(a, b, false)) return r;
        if (E r = remOf(b, a, false)) return r;
        if (b->isConst() && a->op == Op::Add && a->b->isConst()) return mkBin(Op::Add, a->a, mkConst(w, a->b->val + b->val));
        break;
    case Op::Sub:
        if (a == b) return mkConst(w, 0);
        if (b->isConst()) return mkBin(Op::Add, a, mkConst(w, 0 - b->val));
        if (E r = remOf(a, b, true)) return r;
        if (a->op == Op::Add && a->a == b) return a->b;
        if (a->op == Op::Add && a->b == b) return a->a;
        break;
    case Op::Mul:
        if (b->isConst() && b->val == 0) return b;
        if (b->isConst() && b->val == 1) return a;
        break;
    case Op::UDiv: case Op::SDiv:
        if (b->isConst() && b->val == 1) return a;
        break;
    case Op::And:
        if (a == b) return a;
        if (b->isConst()) { if (b->val == 0) return b; if (b->val == M) return a; }
        if (w == 1) {
            if (compl1(a, b)) return mkBool(false);
            for (int s = 0; s < 2; s++) { // absorption  a & (a|y) = a ; a & (a & y) = a&y ; a & (!a | y) = a & y
                E x = s ? b : a, y = s ? a : b;
                if (y->op == Op::Or) {
                    if (y->a == x || y->b == x) return x;
                    if (compl1(x, y->a)) return mkAnd(x, y->b);
                    if (compl1(x, y->b)) return mkAnd(x, y->a);
                }
                if (y->op == Op::And) {
                    if (y->a == x || y->b == x) return y;
                    if (compl1(x, y->a) || compl1(x, y->b)) return mkBool(false);
                }
            }
        } else if (b->isConst()) {
            // low mask of a zero extension
            if (a->op == Op::ZExt && (maskW(a->a->width) & ~b->val) == 0) return a;
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (b->isConst()) { if (b->val == 0) return a; if (b->val == M) return b; }
        if (w == 1) {
            if (compl1(a, b)) return mkBool(true);
            for (int s = 0; s < 2; s++) {
                E x = s ? b : a, y = s ? a : b;
                if (y->op == Op::And) {
                    if (y->a == x || y->b == x) return x;
                    if (compl1(x, y->a)) return mkOr(x, y->b);
                    if (compl1(x, y->b)) return mkOr(x, y->a);
                }
                if (y->op == Op::Or) {
                    if (y->a == x || y->b == x) return y;
                    if (compl1(x, y->a) || compl1(x, y->b)) return mkBool(true);
                }
            }
            if (a->op == Op::And && b->op == Op::And) { // (p&q)|(p&r) = p&(q|r) when q,r complement
                E s[2] = {a->a, a->b}, t[2] = {b->a, b->b};
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
                    if (s[i] == t[j] && compl1(s[1 - i], t[1 - j])) return s[i];
            }
        }
        break;
    case Op::Xor:
        if (a == b) return mkConst(w, 0);
        if (b->isConst()) {
            if (b->val == 0) return a;
            if (a->op == Op::Xor && a->b->isConst()) return mkBin(Op::Xor, a->a, mkConst(w, a->b->val ^ b->val));
        }
        break;
    case Op::Shl: case Op::LShr:
        if (b->isConst() && b->val == 0) return a;
        if (b->isConst() && b->val >= w) return mkConst(w, 0);
        if (b->isConst() && op == Op::LShr) return mkZExt(mkExtract(a, b->val, w - b->val), w);
        break;
    case Op::AShr:
        if (b->isConst() && b->val == 0) return a;
        break;
    case Op::Eq:
        if (a == b) return mkBool(true);
        if (b->isConst()) {
            if (w == 1) return b->val ? a : mkNot(a);
            if (a->op == Op::ZExt) {
                if (b->val & ~maskW(a->a->width)) return mkBool(false);
                return mkEq(a->a, mkConst(a->a->width, b->val));
            }
            if (a->op == Op::SExt) {
                uint64_t lo = b->val & maskW(a->a->width);
                if (((uint64_t)sextW(lo, a->a->width) & M) != b->val) return mkBool(false);
                return mkEq(a->a, mkConst(a->a->width, lo));
            }
            if (a->op == Op::Concat) {
                unsigned lw = a->b->width;
                return mkAnd(mkEq(a->a, mkConst(w - lw, b->val >> lw)), mkEq(a->b, mkConst(lw, b->val)));
            }
            if (a->op == Op::Or && b->val == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
            if (a->op == Op::Add && a->b->isConst()) return mkEq(a->a, mkConst(w, b->val - a->b->val));
            if (a->op == Op::Xor && a->b->isConst()) return mkEq(a->a, mkConst(w, b->val ^ a->b->val));
        }
        break;
    case Op::Ult:
        if (a == b || roundedDown(b, a)) return mkBool(false);
        if (b->isConst() && b->val == 0) return mkBool(false);
        if (a->isConst() && a->val == M) return mkBool(false);
        break;
    case Op::Ule:
        if (a == b || roundedDown(a, b)) return mkBool(true);
        if (a->isConst() && a->val == 0) return mkBool(true);
        if (b->isConst() && b->val == M) return mkBool(true);
        break;
    case Op::Slt:
        if (a == b || (a->lo >= 0 && roundedDown(b, a))) return mkBool(false);
        if (b->isConst() && b->val == 0 && a->op == Op::Or && w > 1) return mkOr(mkBin(op, a->a, b), mkBin(op, a->b, b));
        break;
    case Op::Sle: if (a == b || (b->lo >= 0 && roundedDown(a, b))) return mkBool(true); break;
    default: break;
    }
    // decided by the ranges
    if (w > 1) {
        bool disjoint = a->hi < b->lo || b->hi < a->lo;
        if (op == Op::Eq && disjoint) return mkBool(false);
        bool nonneg = a->lo >= 0 && b->lo >= 0;
        if (op == Op::Slt || (op == Op::Ult && nonneg)) { if (a->hi < b->lo) return mkBool(true); if (a->lo >= b->hi) return mkBool(false); }
        if (op == Op::Sle || (op == Op::Ule && nonneg)) { if (a->hi <= b->lo) return mkBool(true); if (a->lo > b->hi) return mkBool(false); }
        if (!nonneg && (op == Op::Ult || op == Op::Ule)) {
            if (a->lo >= 0 && b->hi < 0) return mkBool(true);
            if (b->lo >= 0 && a->hi < 0) return mkBool(false);
        }
        if (b->isConst() && b->lo > 0) {
            bool sgn = op == Op::SDiv || op == Op::SRem, uns = (op == Op::UDiv || op == Op::URem) && a->lo >= 0;
            if (sgn || uns) {
                bool div = op == Op::SDiv || op == Op::UDiv;
                if (a->lo > -b->lo && a->hi < b->lo) return div ? mkConst(w, 0) : a;
                E m = a->op == Op::SExt ? a->a : a;
                if (m->op == Op::Mul && m->b->isConst() && m->b->lo > 0 && m->b->lo % b->lo == 0) { // (x*k)/d, d divides k, no overflow
                    Expr full; full.width = m->width; ivalFull(full);
                    I128 l = (I128)m->a->lo * m->b->lo, h = (I128)m->a->hi * m->b->lo;
                    if (l >= full.lo && h <= full.hi)
                        return div ? mkBin(Op::Mul, mkSExt(m->a, w), mkConst(w, m->b->lo / b->lo)) : mkConst(w, 0);
                }
            }
        }
        // multiplication and division on as few bits as the ranges allow
        if ((op == Op::Mul || op == Op::SDiv || op == Op::SRem || ((op == Op::UDiv || op == Op::URem) && nonneg)) && !(a->nleaf > 1) && !(b->nleaf > 1)) {
            auto bits = [](int64_t l, int64_t h) { unsigned n = 1; while (n < 64 && (l < -(1ll << (n - 1)) || h > (1ll << (n - 1)) - 1)) n++; return n; };
            unsigned n = std::max(bits(a->lo, a->hi), bits(b->lo, b->hi));
            if (op == Op::Mul) {
                Expr t; t.op = Op::Mul; t.width = (uint8_t)w; t.a = a; t.b = b; t.c = nullptr; ival(t);
                n = std::max(n, bits(t.lo, t.hi));
            } else n++;
            if (n + 4 < w) return mkSExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        }
    }
    // push operations through ITE trees whose leaves are constants
    if (w > 1 || isCmp(op)) {
        if (b->isConst() && a->nleaf > 1 && a->nleaf <= 32) return pushTree1(op, a, b, false);
        if (a->isConst() && b->nleaf > 1 && b->nleaf <= 32) return pushTree1(op, b, a, true);
        if (a->op == Op::Ite && b->op == Op::Ite && a->a == b->a) return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
        if (a->nleaf > 1 && b->nleaf > 1 && a->nleaf * b->nleaf <= 16) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (b->isConst() && a->op == Op::Ite && !isClamp(*a) && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        // equality of an ITE with one of its branches
    }
    if (!linBusy && w >= 32) {
        if (op == Op::Sub && arith(a)) if (E r = linSub(a, b)) return r;
        if ((op == Op::Eq || op == Op::Slt || op == Op::Sle || ((op == Op::Ult || op == Op::Ule) && a->lo >= 0 && b->lo >= 0)) && (arith(a) || arith(b)))
            if (E r = linCmp(op, a, b)) return r;
    }
    return intern(op, rw, 0, a, b);
}

E mkIte(E c, E a, E b)
{
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    unsigned w = a->width;
    if (a->width != b->width) { fprintf(stderr, "ite width mismatch\n"); abort(); }
    if (c->op == Op::Xor && c->b->isConst()) return mkIte(c->a, b, a); // ITE(!c,..)
    if (w == 1) {
        if (a->isTrue()) return mkOr(c, b);
        if (a->isFalse()) return mkAnd(mkNot(c), b);
        if (b->isTrue()) return mkOr(mkNot(c), a);
        if (b->isFalse()) return mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->a == c) a = a->b;
    if (b->op == Op::Ite && b->a == c) b = b->c;
    if (a == b) return a;
    // ITE(c, a, ITE(d, a, y)) -> ITE(c|d, a, y)
    if (b->op == Op::Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    if (b->op == Op::Ite && b->c == a) return mkIte(mkAnd(mkNot(c), b->a), b->b, a);
    if (a->op == Op::Ite && a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
    if (a->op == Op::Ite && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
    if (!linBusy && w == 64 && (arith(a) || arith(b))) if (E r = linIte(c, a, b)) return r;
    return intern(Op::Ite, w, 0, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->width) return a;
    if (a->isConst()) return mkConst(w, a->val >> lo);
    if (a->op == Op::Extract) return mkExtract(a->a, a->val + lo, w);
    if (a->op == Op::Concat) {
        unsigned lw = a->b->width;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    if (a->op == Op::ZExt) {
        unsigned iw = a->a->width;
        if (lo >= iw) return mkConst(w, 0);
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    if (a->op == Op::SExt && lo + w <= a->a->width) return mkExtract(a->a, lo, w);
    if (a->op == Op::Ite) {
        static std::unordered_map<uint64_t, E> memo;
        uint64_t k = ((uint64_t)a->id << 16) | (lo << 8) | w;
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        E r = mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        memo[k] = r;
        return r;
    }
    if (a->op == Op::And || a->op == Op::Or || a->op == Op::Xor)
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    if (lo == 0 && (a->op == Op::Add || a->op == Op::Sub || a->op == Op::Mul) &&
        !(fits(w, a->lo, a->hi) && !(fits(w, a->a->lo, a->a->hi) && fits(w, a->b->lo, a->b->hi)))) // keep what does not wrap
        return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    return intern(Op::Extract, w, lo, a);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->width + lo->width;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->isConst() && lo->isConst()) return mkConst(w, (hi->val << lo->width) | lo->val);
    if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
    E hs = hi->op == Op::Extract ? hi->a : nullptr; unsigned hl = hs ? hi->val : 0;
    if (hs && lo->op == Op::Extract && lo->a == hs && hl == lo->val + lo->width) return mkExtract(hs, lo->val, w);
    if (hs && lo == hs && hl == lo->width) return mkExtract(hs, 0, w);
    if (hs && hs->op == Op::SExt && 0) {}
    if (lo->op == Op::ZExt && hi->op == Op::ZExt) {}
    if (hi->op == Op::Concat) {
        // re-associate to the right so neighbouring extracts meet
        E inner = nullptr;
        E m = hi->b;
        if ((m->op == Op::Extract && lo->op == Op::Extract && lo->a == m->a && m->val == lo->val + lo->width) ||
            (m->op == Op::Extract && lo == m->a && m->val == lo->width) || (m->isConst() && lo->isConst()) ||
            (m->op == Op::Ite && lo->op == Op::Ite && m->a == lo->a)) {
            inner = mkConcat(m, lo);
            return mkConcat(hi->a, inner);
        }
    }
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->nleaf && lo->nleaf && hi->nleaf * lo->nleaf <= 32) {
        if (hi->op == Op::Ite) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    }
    return intern(Op::Concat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w)
{
    if (a->width == w) return a;
    if (a->isConst()) return mkConst(w, a->val);
    if (a->op == Op::ZExt) return mkZExt(a->a, w);
    if (a->nleaf > 1 && a->nleaf <= 64) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    if (a->width == 1) return mkIte(a, mkConst(w, 1), mkConst(w, 0));
    return intern(Op::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w)
{
    if (a->width == w) return a;
    if (a->isConst()) return mkConst(w, (uint64_t)sextW(a->val, a->width));
    if (a->nleaf > 1 && a->nleaf <= 64) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    if (a->width == 1) return mkIte(a, mkConst(w, ~0ull), mkConst(w, 0));
    return intern(Op::SExt, w, 0, a);
}

uint64_t Model::eval(E root) const
{
    if (root->isConst()) return root->val;
    if (memo.size() < arena.size()) { memo.resize(arena.size() + 1024); have.resize(arena.size() + 1024, 0); }
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back();
        if (have[e->id]) { st.pop_back(); continue; }
        if (e->op == Op::Const) { memo[e->id] = e->val; have[e->id] = 1; st.pop_back(); continue; }
        if (e->op == Op::Sym) {
            auto it = v.find(e->val);
            memo[e->id] = (it == v.end() ? 0 : it->second) & maskW(e->width); have[e->id] = 1; st.pop_back(); continue;
        }
        if (e->op == Op::Ite) {
            if (!have[e->a->id]) { st.push_back(e->a); continue; }
            E t = memo[e->a->id] ? e->b : e->c;
            if (!have[t->id]) { st.push_back(t); continue; }
            memo[e->id] = memo[t->id]; have[e->id] = 1; st.pop_back(); continue;
        }
        bool ready = true;
        for (E x : {e->a, e->b}) if (x && !have[x->id]) { st.push_back(x); ready = false; }
        if (!ready) continue;
        uint64_t x = memo[e->a->id], y = e->b ? memo[e->b->id] : 0, r;
        switch (e->op) {
        case Op::Concat: r = (x << e->b->width) | y; break;
        case Op::Extract: r = x >> e->val; break;
        case Op::ZExt: r = x; break;
        case Op::SExt: r = (uint64_t)sextW(x, e->a->width); break;
        default: r = foldBin(e->op, e->a->width, x, y);
        }
        memo[e->id] = r & maskW(e->width); have[e->id] = 1; st.pop_back();
    }
    return memo[root->id];
}

void constLeaves(E e, std::vector<uint64_t>& out)
{
    if (e->isConst()) { if (std::find(out.begin(), out.end(), e->val) == out.end()) out.push_back(e->val); return; }
    constLeaves(e->b, out); constLeaves(e->c, out);
}

std::string exprStr(E e, int d)
{
    static const char* n[] = {"c","s","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","u<","u<=","s<","s<=","concat","extract","zext","sext","ite"};
    if (e->isConst()) return std::to_string(e->val);
    if (e->op == Op::Sym) return symNames[e->val];
    if (d <= 0) return "...";
    std::string s = std::string("(") + n[(int)e->op];
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    if (e->op == Op::Extract) s += "@" + std::to_string(e->val) + ":" + std::to_string(e->width);
    return s + ")";
}
