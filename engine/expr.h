// Hash-consed bit-vector expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

enum class Op : uint8_t {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite
};

struct Expr {
    Op       op;
    uint8_t  width;   // 1..64
    uint8_t  nleaf;   // number of constant leaves when the term is an ITE tree over constants (0 = not one, 1 = Const)
    uint32_t id;
    uint32_t depth;
    uint64_t val;     // Const: value; Sym: symbol index; Extract: low bit
    const Expr* a;
    const Expr* b;
    const Expr* c;
    int64_t lo, hi;   // the value, read as a signed number, lies in [lo, hi]
    bool isConst() const { return op == Op::Const; }
    bool isTrue() const { return op == Op::Const && width == 1 && val == 1; }
    bool isFalse() const { return op == Op::Const && width == 1 && val == 0; }
};
using E = const Expr*;

inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t  sextW(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskW(w);
    return (int64_t)((v ^ m) - m);
}

E mkConst(unsigned w, uint64_t v);
inline E mkBool(bool b) { return mkConst(1, b); }
E mkSym(const std::string& name, unsigned w);       // one symbol per name
const std::string& symName(uint64_t idx);
unsigned symWidth(uint64_t idx);
size_t   symCount();
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkTruncOrZExt(E a, unsigned w)
{
    if (a->width == w) return a;
    return a->width > w ? mkExtract(a, 0, w) : mkZExt(a, w);
}
size_t exprCount();
E exprAt(uint32_t id);
std::string exprStr(E e, int depth = 6);

struct Model {
    std::unordered_map<uint64_t, uint64_t> v; // symbol index -> value (absent: 0)
    mutable std::vector<uint64_t> memo;
    mutable std::vector<uint8_t>  have;
    uint64_t eval(E e) const;
};
// collect the constant leaves of an ITE tree
void constLeaves(E e, std::vector<uint64_t>& out);
