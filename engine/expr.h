// Hash-consed bit-vector expression DAG with a normalising builder.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using llvm::APInt;

enum class K : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Not, Concat, Extract, SExt, Ite,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FUno
};

struct Expr {
    K           k;
    uint32_t    w;       // width in bits
    uint32_t    off = 0; // Extract offset / Var id
    uint32_t    id  = 0;
    size_t      h   = 0;
    const Expr* a   = nullptr;
    const Expr* b   = nullptr;
    const Expr* c   = nullptr;
    APInt       val{1, 0};
    uint64_t    umin = 0, umax = 0, ones = 0; // only if w <= 64
    int64_t     smin = 0, smax = 0;           // likewise, as a signed value
    // caches
    mutable uint64_t                    stamp = 0;
    mutable APInt                       ev{1, 0};
    mutable void*                       z3bv   = nullptr;
    mutable void*                       z3bool = nullptr;
    mutable const std::vector<uint32_t>* supp  = nullptr;

    bool isConst() const { return k == K::Const; }
    bool isConst(uint64_t v) const { return k == K::Const && val == v; }
    bool isTrue() const { return k == K::Const && w == 1 && val.getBoolValue(); }
    bool isFalse() const { return k == K::Const && w == 1 && !val.getBoolValue(); }
};
using E = const Expr*;

struct VarInfo { std::string name; uint32_t w; };
extern std::vector<VarInfo> g_vars;

using Assignment = std::vector<APInt>; // by var id (missing => 0)

namespace xb {
E  cst(const APInt& v);
E  cst(uint32_t w, uint64_t v);
E  var(const std::string& name, uint32_t w);
E  add(E a, E b);
E  sub(E a, E b);
E  mul(E a, E b);
E  udiv(E a, E b);
E  sdiv(E a, E b);
E  urem(E a, E b);
E  srem(E a, E b);
E  and_(E a, E b);
E  or_(E a, E b);
E  xor_(E a, E b);
E  shl(E a, E b);
E  lshr(E a, E b);
E  ashr(E a, E b);
E  eq(E a, E b);
E  ult(E a, E b);
E  slt(E a, E b);
E  not_(E a);
E  concat(E hi, E lo);
E  extract(E e, uint32_t off, uint32_t w);
E  zext(E e, uint32_t w);
E  sext(E e, uint32_t w);
E  ite(E c, E a, E b);
E  fop(K k, E a, E b);
inline E ule(E a, E b) { return not_(ult(b, a)); }
inline E sle(E a, E b) { return not_(slt(b, a)); }
inline E ne(E a, E b) { return not_(eq(a, b)); }
E  tru();
E  fls();
} // namespace xb

APInt       evalExpr(E e, const Assignment& m, uint64_t stamp);
uint64_t    newStamp();
const std::vector<uint32_t>& support(E e);
std::string str(E e, int depth = 6);
size_t      exprCount();
