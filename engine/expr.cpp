#include "expr.h"
#include <algorithm>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <cassert>
#include <cmath>
#include <cstring>
#include <deque>

std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;

struct HashE { size_t operator()(E e) const { return e->h; } };
struct EqE {
    bool operator()(E x, E y) const
    {
        if (x->k != y->k || x->w != y->w || x->off != y->off || x->a != y->a || x->b != y->b || x->c != y->c) return false;
        if (x->k == K::Const) return x->val == y->val;
        return true;
    }
};
static std::unordered_set<E, HashE, EqE> g_set;
size_t exprCount() { return g_pool.size(); }

static inline size_t mix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

static uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t bitsBelow(uint64_t v)
{
    if (!v) return 0;
    int n = 64 - __builtin_clzll(v);
    return maskw(n);
}

static void computeRange(Expr& e)
{
    if (e.w > 64) return;
    uint64_t M = maskw(e.w);
    e.umin = 0; e.umax = M; e.ones = M;
    switch (e.k)
    {
    case K::Const: e.umin = e.umax = e.ones = e.val.getZExtValue(); return;
    case K::Add: {
        unsigned __int128 hi = (unsigned __int128)e.a->umax + e.b->umax;
        if (hi <= M) { e.umax = (uint64_t)hi; e.umin = e.a->umin + e.b->umin; e.ones = bitsBelow(e.umax); }
        break;
    }
    case K::Sub:
        if (e.a->umin >= e.b->umax) { e.umax = e.a->umax - e.b->umin; e.umin = e.a->umin - e.b->umax; e.ones = bitsBelow(e.umax); }
        break;
    case K::Mul: {
        unsigned __int128 hi = (unsigned __int128)e.a->umax * e.b->umax;
        if (hi <= M) { e.umax = (uint64_t)hi; e.umin = e.a->umin * e.b->umin; e.ones = bitsBelow(e.umax); }
        break;
    }
    case K::UDiv: if (e.b->umin > 0) { e.umax = e.a->umax / e.b->umin; e.umin = e.a->umin / e.b->umax; e.ones = bitsBelow(e.umax); } break;
    case K::URem: if (e.b->umin > 0) { e.umax = std::min(e.b->umax - 1, e.a->umax); e.ones = bitsBelow(e.umax); } break;
    case K::And: e.ones = e.a->ones & e.b->ones; e.umax = std::min({e.a->umax, e.b->umax, e.ones}); break;
    case K::Or: e.ones = e.a->ones | e.b->ones; e.umax = bitsBelow(e.ones); e.umin = std::max(e.a->umin, e.b->umin); break;
    case K::Xor: e.ones = e.a->ones | e.b->ones; e.umax = bitsBelow(e.ones); break;
    case K::Concat: {
        uint32_t lw = e.b->w;
        e.ones = (e.a->ones << lw) | e.b->ones;
        e.umax = (e.a->umax << lw) + e.b->umax;
        e.umin = (e.a->umin << lw) + e.b->umin;
        break;
    }
    case K::Extract:
        if (e.a->w <= 64)
        {
            e.ones = (e.a->ones >> e.off) & M;
            e.umax = e.ones;
            if (e.off == 0 && e.a->umax <= M) { e.umax = e.a->umax; e.umin = e.a->umin; }
            else if (e.off + e.w == e.a->w) { e.umax = e.a->umax >> e.off; e.umin = e.a->umin >> e.off; }
            e.umax = std::min(e.umax, e.ones);
        }
        break;
    case K::LShr: e.umax = e.a->umax; e.ones = bitsBelow(e.umax); break;
    case K::Ite:
        e.umin = std::min(e.b->umin, e.c->umin); e.umax = std::max(e.b->umax, e.c->umax); e.ones = e.b->ones | e.c->ones;
        break;
    default: break;
    }
    if (e.umax > e.ones && e.ones == bitsBelow(e.ones)) e.umax = e.ones;
}

static void computeSigned(Expr& e)
{
    if (e.w > 64) return;
    typedef __int128 I;
    uint32_t w = e.w;
    I        lo = -(I(1) << (w - 1)), hi = (I(1) << (w - 1)) - 1;
    if (e.umax <= (uint64_t)hi) { lo = e.umin; hi = e.umax; }
    else if (e.umin > (uint64_t)hi) { lo = (I)e.umin - (I(1) << w); hi = (I)e.umax - (I(1) << w); }
    I l = lo, h = hi;
    const I L = -(I(1) << (w - 1)), H = (I(1) << (w - 1)) - 1;
    switch (e.k)
    {
    case K::Add: l = (I)e.a->smin + e.b->smin; h = (I)e.a->smax + e.b->smax; break;
    case K::Sub: l = (I)e.a->smin - e.b->smax; h = (I)e.a->smax - e.b->smin; break;
    case K::Mul: {
        I v[4] = {(I)e.a->smin * e.b->smin, (I)e.a->smin * e.b->smax, (I)e.a->smax * e.b->smin, (I)e.a->smax * e.b->smax};
        l = *std::min_element(v, v + 4); h = *std::max_element(v, v + 4);
        break;
    }
    case K::SExt: l = e.a->smin; h = e.a->smax; break;
    case K::Concat: l = (I)e.a->smin * (I(1) << e.b->w) + e.b->umin; h = (I)e.a->smax * (I(1) << e.b->w) + e.b->umax; break;
    case K::Extract: if (e.off == 0 && e.a->w <= 64) { l = e.a->smin; h = e.a->smax; } break;
    case K::AShr: if (e.b->isConst() && e.b->umin < w) { l = e.a->smin >> e.b->umin; h = e.a->smax >> e.b->umin; } break;
    case K::Ite: l = std::min(e.b->smin, e.c->smin); h = std::max(e.b->smax, e.c->smax); break;
    default: break;
    }
    if (l >= L && h <= H) { lo = std::max(lo, l); hi = std::min(hi, h); }
    e.smin = (int64_t)lo; e.smax = (int64_t)hi;
    if (e.smin >= 0) { e.umin = std::max(e.umin, (uint64_t)e.smin); e.umax = std::min(e.umax, (uint64_t)e.smax); }
}

static E intern(Expr&& t)
{
    size_t h = mix((size_t)t.k * 1315423911u + t.w, t.off);
    h = mix(h, t.a ? t.a->id + 1 : 0);
    h = mix(h, t.b ? t.b->id + 1 : 0);
    h = mix(h, t.c ? t.c->id + 1 : 0);
    if (t.k == K::Const) h = mix(h, (size_t)llvm::hash_value(t.val));
    t.h = h;
    auto it = g_set.find(&t);
    if (it != g_set.end()) return *it;
    g_pool.push_back(std::move(t));
    Expr& e = g_pool.back();
    e.id    = (uint32_t)g_pool.size();
    computeRange(e);
    computeSigned(e);
    if (e.w <= 64 && e.k != K::Const && e.umin == e.umax && e.k != K::Var)
    {
        // constant after all: keep node but map to the constant
        uint64_t v = e.umin;
        uint32_t w = e.w;
        g_pool.pop_back();
        return xb::cst(w, v);
    }
    g_set.insert(&e);
    return &e;
}
static E mk(K k, uint32_t w, E a, E b = nullptr, E c = nullptr, uint32_t off = 0)
{
    Expr t{k, w};
    t.a = a; t.b = b; t.c = c; t.off = off;
    return intern(std::move(t));
}

namespace xb {
E cst(const APInt& v)
{
    Expr t{K::Const, v.getBitWidth()};
    t.val = v;
    return intern(std::move(t));
}
E cst(uint32_t w, uint64_t v)
{
    return cst(w >= 64 ? APInt(w, v) : APInt(w, v & maskw(w)));
}
E tru() { static E e = cst(1, 1); return e; }
E fls() { static E e = cst(1, 0); return e; }
E var(const std::string& name, uint32_t w)
{
    Expr t{K::Var, w};
    t.off = (uint32_t)g_vars.size();
    g_vars.push_back({name, w});
    return intern(std::move(t));
}

static E disjointOr(E a, E b);

E add(E a, E b)
{
    if (a->isConst() && b->isConst()) return cst(a->val + b->val);
    if (b->isConst()) std::swap(a, b);
    if (a->isConst())
    {
        if (a->val.isZero()) return b;
        if (b->k == K::Add && b->a->isConst()) return add(cst(a->val + b->a->val), b->b);
        if (b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, add(a, b->b), add(a, b->c));
    }
    else
    {
        if (b->k == K::Add && b->a->isConst()) return add(b->a, add(a, b->b));
        if (a->k == K::Add && a->a->isConst()) return add(a->a, add(a->b, b));
        if (a->k == K::Sub && a->b == b) return a->a;
        if (b->k == K::Sub && b->b == a) return b->a;
        if (a == b) return shl(a, cst(a->w, 1));
        if (a->id > b->id) std::swap(a, b);
    }
    if (a->w == 1) return xor_(a, b);
    if (a->w <= 64 && (a->ones & b->ones) == 0) return or_(a, b);
    return mk(K::Add, a->w, a, b);
}
E sub(E a, E b)
{
    if (a->isConst() && b->isConst()) return cst(a->val - b->val);
    if (b->isConst()) return add(cst(-b->val), a);
    if (a == b) return cst(a->w, 0);
    if (a->k == K::Add && a->a->isConst()) return add(a->a, sub(a->b, b));
    if (b->k == K::Add && b->a->isConst()) return add(cst(-b->a->val), sub(a, b->b));
    if (a->k == K::Add) { if (a->b == b) return a->a; if (a->a == b) return a->b; }
    if (b->k == K::Add) { if (b->b == a) return sub(cst(a->w, 0), b->a); if (b->a == a) return sub(cst(a->w, 0), b->b); }
    if (a->w == 1) return xor_(a, b);
    return mk(K::Sub, a->w, a, b);
}
E mul(E a, E b)
{
    if (a->isConst() && b->isConst()) return cst(a->val * b->val);
    if (b->isConst()) std::swap(a, b);
    if (a->isConst())
    {
        if (a->val.isZero()) return a;
        if (a->val.isOne()) return b;
        if (a->val.isPowerOf2()) return shl(b, cst(a->w, a->val.logBase2()));
        if (b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, mul(a, b->b), mul(a, b->c));
    }
    else if (a->id > b->id) std::swap(a, b);
    return mk(K::Mul, a->w, a, b);
}
E udiv(E a, E b)
{
    if (b->isConst() && !b->val.isZero())
    {
        if (a->isConst()) return cst(a->val.udiv(b->val));
        if (b->val.isPowerOf2()) return lshr(a, cst(a->w, b->val.logBase2()));
        if (a->w <= 64 && a->umax < b->umin) return cst(a->w, 0);
    }
    return mk(K::UDiv, a->w, a, b);
}
E sdiv(E a, E b)
{
    if (a->isConst() && b->isConst() && !b->val.isZero()) return cst(a->val.sdiv(b->val));
    if (a->w <= 64)
    {
        uint64_t top = 1ull << (a->w - 1);
        if (!(a->ones & top) && !(b->ones & top)) return udiv(a, b);
    }
    return mk(K::SDiv, a->w, a, b);
}
E urem(E a, E b)
{
    if (b->isConst() && !b->val.isZero())
    {
        if (a->isConst()) return cst(a->val.urem(b->val));
        if (b->val.isPowerOf2()) return and_(a, cst(b->val - 1));
        if (a->w <= 64 && a->umax < b->umin) return a;
    }
    return mk(K::URem, a->w, a, b);
}
E srem(E a, E b)
{
    if (a->isConst() && b->isConst() && !b->val.isZero()) return cst(a->val.srem(b->val));
    if (a->w <= 64)
    {
        uint64_t top = 1ull << (a->w - 1);
        if (!(a->ones & top) && !(b->ones & top)) return urem(a, b);
    }
    return mk(K::SRem, a->w, a, b);
}

static void pieces(E e, std::vector<E>& out)
{
    while (e->k == K::Concat) { out.push_back(e->a); e = e->b; }
    out.push_back(e);
}

static bool zeroConst(E e) { return e->isConst() && e->val.isZero(); }
static bool onesConst(E e) { return e->isConst() && e->val.isAllOnes(); }

static E bitop(K k, E a, E b) // after trivial simplification
{
    if (a->isConst() && b->isConst())
        return cst(k == K::And ? a->val & b->val : k == K::Or ? a->val | b->val : a->val ^ b->val);
    if (a->isConst()) std::swap(a, b);
    // const (if any) is b
    switch (k)
    {
    case K::And:
        if (a == b || onesConst(b)) return a;
        if (zeroConst(b)) return b;
        break;
    case K::Or:
        if (a == b || zeroConst(b)) return a;
        if (onesConst(b)) return b;
        break;
    default:
        if (a == b) return cst(a->w, 0);
        if (zeroConst(b)) return a;
        break;
    }
    return nullptr;
}

static void splitPoints(E e, std::vector<uint32_t>& pts, bool runs)
{
    // positions (from lsb) where a piece boundary lies
    std::vector<E> ps;
    pieces(e, ps);
    uint32_t pos = 0;
    for (size_t i = ps.size(); i-- > 0;)
    {
        E p = ps[i];
        if (runs && p->isConst())
        {
            // run boundaries inside the constant
            for (uint32_t j = 1; j < p->w; j++)
                if (p->val[j] != p->val[j - 1]) pts.push_back(pos + j);
        }
        pos += p->w;
        pts.push_back(pos);
    }
}
static bool hasConstPiece(E e)
{
    for (;;)
    {
        if (e->isConst()) return true;
        if (e->k != K::Concat) return false;
        if (e->a->isConst()) return true;
        e = e->b;
    }
}

static E bitwise(K k, E a, E b)
{
    if (E r = bitop(k, a, b)) return r;
    if (a->w == 1)
    {
        if ((a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a))
            return k == K::And ? fls() : tru();
        if (k == K::Xor)
        {
            if (a->isConst()) std::swap(a, b);
            if (b->isConst()) return not_(a);
            if (a->k == K::Not) return not_(bitwise(k, a->a, b));
            if (b->k == K::Not) return not_(bitwise(k, a, b->a));
        }
        else
        {
            // absorption
            K other = k == K::And ? K::Or : K::And;
            if (b->k == k && (b->a == a || b->b == a)) return b;
            if (a->k == k && (a->a == b || a->b == b)) return a;
            if (b->k == other && (b->a == a || b->b == a)) return a;
            if (a->k == other && (a->a == b || a->b == b)) return b;
        }
    }
    else if (hasConstPiece(a) || hasConstPiece(b))
    {
        std::vector<uint32_t> pts;
        splitPoints(a, pts, k != K::Xor);
        splitPoints(b, pts, k != K::Xor);
        std::sort(pts.begin(), pts.end());
        pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        if (pts.size() > 1 && pts.size() <= 80)
        {
            // check benefit: at least one segment where one side is constant 0 / ones
            E        res = nullptr;
            uint32_t prev = 0;
            for (uint32_t p : pts)
            {
                E x = extract(a, prev, p - prev), y = extract(b, prev, p - prev);
                E r = bitop(k, x, y);
                if (!r)
                {
                    if (k == K::Xor && (x->isConst() || y->isConst()) && x->w > 1)
                    {
                        if (y->isConst()) std::swap(x, y); // x const all ones
                        if (y->id < x->id) std::swap(x, y);
                        r = mk(k, x->w, x, y);
                    }
                    else r = bitwise(k, x, y);
                }
                res  = res ? concat(r, res) : r;
                prev = p;
            }
            return res;
        }
    }
    if (b->k == K::Ite && a->isConst() && b->b->isConst() && b->c->isConst())
        return ite(b->a, bitwise(k, a, b->b), bitwise(k, a, b->c));
    if (a->k == K::Ite && b->isConst() && a->b->isConst() && a->c->isConst())
        return ite(a->a, bitwise(k, a->b, b), bitwise(k, a->c, b));
    if (a->id > b->id) std::swap(a, b);
    return mk(k, a->w, a, b);
}
E and_(E a, E b) { return bitwise(K::And, a, b); }
E or_(E a, E b) { return bitwise(K::Or, a, b); }
E xor_(E a, E b) { return bitwise(K::Xor, a, b); }

E not_(E a)
{
    if (a->w != 1) return xor_(a, cst(APInt::getAllOnes(a->w)));
    if (a->isConst()) return a->val.isZero() ? tru() : fls();
    if (a->k == K::Not) return a->a;
    return mk(K::Not, 1, a);
}

E shl(E a, E b)
{
    if (b->isConst())
    {
        uint64_t n = b->val.getLimitedValue(1u << 30);
        if (n == 0) return a;
        if (n >= a->w) return cst(a->w, 0);
        return concat(extract(a, 0, a->w - n), cst((uint32_t)n, 0));
    }
    if (b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, shl(a, b->b), shl(a, b->c));
    return mk(K::Shl, a->w, a, b);
}
E lshr(E a, E b)
{
    if (b->isConst())
    {
        uint64_t n = b->val.getLimitedValue(1u << 30);
        if (n == 0) return a;
        if (n >= a->w) return cst(a->w, 0);
        return concat(cst((uint32_t)n, 0), extract(a, n, a->w - n));
    }
    if (b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, lshr(a, b->b), lshr(a, b->c));
    return mk(K::LShr, a->w, a, b);
}
E ashr(E a, E b)
{
    if (b->isConst())
    {
        uint64_t n = b->val.getLimitedValue(1u << 30);
        if (n == 0) return a;
        if (n >= a->w) n = a->w - 1;
        return sext(extract(a, n, a->w - n), a->w);
    }
    if (a->w <= 64 && !(a->ones >> (a->w - 1) & 1)) return lshr(a, b);
    if (b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, ashr(a, b->b), ashr(a, b->c));
    return mk(K::AShr, a->w, a, b);
}

E concat(E hi, E lo)
{
    if (hi->k == K::Concat) return concat(hi->a, concat(hi->b, lo));
    // hi is a single piece now
    E first = lo->k == K::Concat ? lo->a : lo;
    E rest  = lo->k == K::Concat ? lo->b : nullptr;
    E merged = nullptr;
    if (hi->isConst() && first->isConst())
    {
        APInt v = hi->val.zext(hi->w + first->w);
        v <<= first->w;
        v |= first->val.zext(hi->w + first->w);
        merged = cst(v);
    }
    else
    {
        E hb = hi, fb = first;
        uint32_t ho = 0, fo = 0;
        if (hi->k == K::Extract) { hb = hi->a; ho = hi->off; }
        if (first->k == K::Extract) { fb = first->a; fo = first->off; }
        if (hb == fb && ho == fo + first->w && !(hb->w == hi->w)) merged = extract(hb, fo, hi->w + first->w);
    }
    if (merged)
    {
        if (!rest) return merged;
        return concat(merged, rest);
    }
    return mk(K::Concat, hi->w + lo->w, hi, lo);
}

E extract(E e, uint32_t off, uint32_t w)
{
    assert(off + w <= e->w && w > 0);
    if (w == e->w) return e;
    if (e->isConst()) return cst(e->val.extractBits(w, off));
    switch (e->k)
    {
    case K::Extract: return extract(e->a, e->off + off, w);
    case K::Concat: {
        uint32_t lw = e->b->w;
        if (off >= lw) return extract(e->a, off - lw, w);
        if (off + w <= lw) return extract(e->b, off, w);
        return concat(extract(e->a, 0, off + w - lw), extract(e->b, off, lw - off));
    }
    case K::SExt:
        if (off + w <= e->a->w) return extract(e->a, off, w);
        if (off >= e->a->w - 1) return sext(extract(e->a, e->a->w - 1, 1), w);
        return sext(extract(e->a, off, e->a->w - off), w);
    case K::And: return and_(extract(e->a, off, w), extract(e->b, off, w));
    case K::Or: return or_(extract(e->a, off, w), extract(e->b, off, w));
    case K::Xor: return xor_(extract(e->a, off, w), extract(e->b, off, w));
    case K::Ite:
        if (e->b->isConst() || e->c->isConst() || e->b->k == K::Concat || e->c->k == K::Concat || e->b->k == K::Ite || e->c->k == K::Ite)
            return ite(e->a, extract(e->b, off, w), extract(e->c, off, w));
        break;
    case K::Add:
        if (off == 0) return add(extract(e->a, 0, w), extract(e->b, 0, w));
        break;
    case K::Sub:
        if (off == 0) return sub(extract(e->a, 0, w), extract(e->b, 0, w));
        break;
    case K::Mul:
        if (off == 0) return mul(extract(e->a, 0, w), extract(e->b, 0, w));
        break;
    default: break;
    }
    if (e->w <= 64)
    {
        if (((e->ones >> off) & maskw(w)) == 0) return cst(w, 0);
    }
    return mk(K::Extract, w, e, nullptr, nullptr, off);
}
E zext(E e, uint32_t w)
{
    if (w == e->w) return e;
    return concat(cst(w - e->w, 0), e);
}
E sext(E e, uint32_t w)
{
    if (w == e->w) return e;
    if (e->isConst()) return cst(e->val.sext(w));
    if (e->w == 1) return ite(e, cst(APInt::getAllOnes(w)), cst(w, 0));
    if (e->k == K::SExt) return sext(e->a, w);
    if (e->w <= 64 && (e->smin >= 0 || !(e->ones >> (e->w - 1) & 1))) return zext(e, w);
    if (e->k == K::Concat && e->a->isConst() && !e->a->val[e->a->w - 1]) return zext(e, w);
    if (e->k == K::Ite && (e->b->isConst() || e->c->isConst())) return ite(e->a, sext(e->b, w), sext(e->c, w));
    return mk(K::SExt, w, e);
}

E eq(E a, E b)
{
    if (a == b) return tru();
    if (b->isConst()) std::swap(a, b);
    if (a->isConst() && b->isConst()) return a->val == b->val ? tru() : fls();
    if (a->w <= 64 && (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin)) return fls();
    if (a->isConst())
    {
        if (a->w == 1) return a->val.isZero() ? not_(b) : b;
        if (a->w <= 64 && (a->umin & ~b->ones)) return fls();
        switch (b->k)
        {
        case K::Concat: {
            uint32_t lw = b->b->w;
            E        h  = eq(cst(a->val.extractBits(b->a->w, lw)), b->a);
            if (h->isFalse()) return h;
            return and_(h, eq(cst(a->val.extractBits(lw, 0)), b->b));
        }
        case K::Add:
            if (b->a->isConst()) return eq(cst(a->val - b->a->val), b->b);
            break;
        case K::Sub:
            if (b->a->isConst()) return eq(cst(b->a->val - a->val), b->b);
            if (a->val.isZero()) return eq(b->a, b->b);
            break;
        case K::Xor:
            if (b->a->isConst()) return eq(cst(a->val ^ b->a->val), b->b);
            if (b->b->isConst()) return eq(cst(a->val ^ b->b->val), b->a);
            if (a->val.isZero()) return eq(b->a, b->b);
            break;
        case K::SExt: {
            APInt t = a->val.trunc(b->a->w);
            if (t.sext(a->w) != a->val) return fls();
            return eq(cst(t), b->a);
        }
        case K::Ite:
            if (b->b->isConst()) { bool m = b->b->val == a->val; return m ? or_(b->a, eq(a, b->c)) : and_(not_(b->a), eq(a, b->c)); }
            if (b->c->isConst()) { bool m = b->c->val == a->val; return m ? or_(not_(b->a), eq(a, b->b)) : and_(b->a, eq(a, b->b)); }
            break;
        default: break;
        }
    }
    else
    {
        if (a->w == 1 && a->k == K::Not && b->k == K::Not) return eq(a->a, b->a);
        if (a->w == 1 && a->k == K::Not && a->a == b) return fls();
        if (a->w == 1 && b->k == K::Not && b->a == a) return fls();
        if (a->k == K::Concat && b->k == K::Concat)
        {
            if (a->a->w == b->a->w)
            {
                E h = eq(a->a, b->a);
                if (h->isFalse()) return h;
                return and_(h, eq(a->b, b->b));
            }
            // split at the finer boundary
            E &x = a, &y = b;
            uint32_t n = std::min(x->a->w, y->a->w);
            E h = eq(extract(x, x->w - n, n), extract(y, y->w - n, n));
            if (h->isFalse()) return h;
            return and_(h, eq(extract(x, 0, x->w - n), extract(y, 0, y->w - n)));
        }
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->k == K::Add && b->k == K::Add)
        {
            if (a->a == b->a) return eq(a->b, b->b);
            if (a->b == b->b) return eq(a->a, b->a);
            if (a->a->isConst() && b->a->isConst()) return eq(add(cst(a->a->val - b->a->val), a->b), b->b);
        }
        if (a->k == K::Add && a->b == b && a->a->isConst()) return fls();
        if (b->k == K::Add && b->b == a && b->a->isConst()) return fls();
        if (a->id > b->id) std::swap(a, b);
    }
    return mk(K::Eq, 1, a, b);
}

E ult(E a, E b)
{
    if (a == b) return fls();
    if (a->isConst() && b->isConst()) return a->val.ult(b->val) ? tru() : fls();
    if (b->isConst() && b->val.isZero()) return fls();
    if (a->isConst() && a->val.isAllOnes()) return fls();
    if (a->w <= 64)
    {
        if (a->umax < b->umin) return tru();
        if (a->umin >= b->umax) return fls();
    }
    if (b->isConst() && b->val.isOne()) return eq(cst(a->w, 0), a);
    if (a->isConst() && a->val.isZero()) return not_(eq(a, b));
    if (a->w == 1) return and_(not_(a), b);
    // strip common zero-extension
    auto hz = [](E e) -> uint32_t {
        if (e->k == K::Concat && zeroConst(e->a)) return e->a->w;
        if (e->isConst()) return e->val.countl_zero() >= e->w ? e->w - 1 : e->val.countl_zero();
        return 0;
    };
    uint32_t z = std::min(hz(a), hz(b));
    if (z > 0) return ult(extract(a, 0, a->w - z), extract(b, 0, b->w - z));
    if (b->isConst() && a->k == K::Ite && a->b->isConst() && a->c->isConst()) return ite(a->a, ult(a->b, b), ult(a->c, b));
    if (a->isConst() && b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, ult(a, b->b), ult(a, b->c));
    // equal low/high parts
    if (a->k == K::Concat && b->k == K::Concat && a->a == b->a) return ult(a->b, b->b);
    // a < const with const a multiple of 2^k and a = concat(hi, lo)
    if (b->isConst() && a->k == K::Concat)
    {
        uint32_t tz = b->val.countr_zero(), lw = a->b->w;
        if (tz >= lw) return ult(a->a, cst(b->val.extractBits(a->a->w, lw)));
    }
    return mk(K::Ult, 1, a, b);
}
E slt(E a, E b)
{
    if (a == b) return fls();
    if (a->isConst() && b->isConst()) return a->val.slt(b->val) ? tru() : fls();
    if (b->isConst() && b->val.isZero()) return extract(a, a->w - 1, 1);
    if (a->isConst() && a->val.isAllOnes()) return not_(extract(b, b->w - 1, 1));
    if (a->w == 1) return and_(a, not_(b));
    if (a->w <= 64)
    {
        if (a->smax < b->smin) return tru();
        if (a->smin >= b->smax) return fls();
    }
    auto nonneg = [](E e) {
        if (e->w <= 64 && e->smin >= 0) return true;
        if (e->w <= 64) return !(e->ones >> (e->w - 1) & 1);
        return (e->k == K::Concat && e->a->isConst() && !e->a->val[e->a->w - 1]) || (e->isConst() && e->val.isNonNegative());
    };
    if (nonneg(a) && nonneg(b)) return ult(a, b);
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return slt(a->a, b->a);
    if (a->k == K::SExt && b->isConst() && b->val.isSignedIntN(a->a->w)) return slt(a->a, cst(b->val.trunc(a->a->w)));
    if (b->k == K::SExt && a->isConst() && a->val.isSignedIntN(b->a->w)) return slt(cst(a->val.trunc(b->a->w)), b->a);
    if (b->isConst() && a->k == K::Ite && a->b->isConst() && a->c->isConst()) return ite(a->a, slt(a->b, b), slt(a->c, b));
    if (a->isConst() && b->k == K::Ite && b->b->isConst() && b->c->isConst()) return ite(b->a, slt(a, b->b), slt(a, b->c));
    return mk(K::Slt, 1, a, b);
}
E ite(E c, E a, E b)
{
    if (c->isConst()) return c->val.isZero() ? b : a;
    if (a == b) return a;
    if (c->k == K::Not) return ite(c->a, b, a);
    if (a->w == 1)
    {
        if (a->isTrue()) return or_(c, b);
        if (a->isFalse()) return and_(not_(c), b);
        if (b->isTrue()) return or_(not_(c), a);
        if (b->isFalse()) return and_(c, a);
    }
    if (a->k == K::Ite && a->a == c) return ite(c, a->b, b);
    if (b->k == K::Ite && b->a == c) return ite(c, a, b->c);
    // share common high/low zero parts: ite(c, 0:x, 0:y) -> 0:ite(c,x,y)
    auto hz = [](E e) -> uint32_t {
        if (e->k == K::Concat && zeroConst(e->a)) return e->a->w;
        if (e->isConst()) return e->val.countl_zero() >= e->w ? e->w - 1 : e->val.countl_zero();
        return 0;
    };
    if (!(a->isConst() && b->isConst()))
    {
        uint32_t z = std::min(hz(a), hz(b));
        if (z > 0) return concat(cst(z, 0), ite(c, extract(a, 0, a->w - z), extract(b, 0, b->w - z)));
    }
    return mk(K::Ite, a->w, c, a, b);
}

static double asD(const APInt& v) { double d; uint64_t u = v.getZExtValue(); memcpy(&d, &u, 8); return d; }
static APInt  fromD(double d) { uint64_t u; memcpy(&u, &d, 8); return APInt(64, u); }
static APInt  foldF(K k, const APInt& a, const APInt& b)
{
    double x = asD(a), y = asD(b);
    switch (k)
    {
    case K::FAdd: return fromD(x + y);
    case K::FSub: return fromD(x - y);
    case K::FMul: return fromD(x * y);
    case K::FDiv: return fromD(x / y);
    case K::FEq: return APInt(1, x == y);
    case K::FLt: return APInt(1, x < y);
    case K::FLe: return APInt(1, x <= y);
    default: return APInt(1, std::isnan(x) || std::isnan(y));
    }
}
E fop(K k, E a, E b)
{
    if (a->isConst() && b->isConst()) return cst(foldF(k, a->val, b->val));
    bool cmp = k == K::FEq || k == K::FLt || k == K::FLe || k == K::FUno;
    return mk(k, cmp ? 1 : 64, a, b);
}
} // namespace xb

uint64_t newStamp()
{
    static uint64_t s = 0;
    return ++s;
}
APInt evalExpr(E e, const Assignment& m, uint64_t st)
{
    if (e->k == K::Const) return e->val;
    if (e->stamp == st) return e->ev;
    APInt r;
    auto  A = [&] { return evalExpr(e->a, m, st); };
    auto  B = [&] { return evalExpr(e->b, m, st); };
    switch (e->k)
    {
    case K::Var: r = e->off < m.size() && m[e->off].getBitWidth() == e->w ? m[e->off] : APInt(e->w, 0); break;
    case K::Add: r = A() + B(); break;
    case K::Sub: r = A() - B(); break;
    case K::Mul: r = A() * B(); break;
    case K::UDiv: { APInt b = B(); r = b.isZero() ? APInt::getAllOnes(e->w) : A().udiv(b); break; }
    case K::SDiv: { APInt b = B(), a = A(); r = b.isZero() ? (a.isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : a.sdiv(b); break; }
    case K::URem: { APInt b = B(); r = b.isZero() ? A() : A().urem(b); break; }
    case K::SRem: { APInt b = B(); r = b.isZero() ? A() : A().srem(b); break; }
    case K::And: r = A() & B(); break;
    case K::Or: r = A() | B(); break;
    case K::Xor: r = A() ^ B(); break;
    case K::Shl: { APInt b = B(); uint64_t n = b.getLimitedValue(e->w); r = n >= e->w ? APInt(e->w, 0) : A().shl(n); break; }
    case K::LShr: { APInt b = B(); uint64_t n = b.getLimitedValue(e->w); r = n >= e->w ? APInt(e->w, 0) : A().lshr(n); break; }
    case K::AShr: { APInt b = B(); uint64_t n = b.getLimitedValue(e->w); r = A().ashr(n >= e->w ? e->w - 1 : n); break; }
    case K::Eq: r = APInt(1, A() == B()); break;
    case K::Ult: r = APInt(1, A().ult(B())); break;
    case K::Slt: r = APInt(1, A().slt(B())); break;
    case K::Not: r = ~A(); break;
    case K::Concat: { APInt h = A().zext(e->w); h <<= e->b->w; h |= B().zext(e->w); r = h; break; }
    case K::Extract: r = A().extractBits(e->w, e->off); break;
    case K::SExt: r = A().sext(e->w); break;
    case K::Ite: r = A().getBoolValue() ? B() : evalExpr(e->c, m, st); break;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FEq: case K::FLt: case K::FLe: case K::FUno:
        r = xb::foldF(e->k, A(), B()); break;
    default: abort();
    }
    e->stamp = st;
    e->ev    = r;
    return r;
}

static const std::vector<uint32_t> g_empty;
const std::vector<uint32_t>& support(E e)
{
    if (e->supp) return *e->supp;
    if (e->k == K::Const) { e->supp = &g_empty; return g_empty; }
    if (e->k == K::Var) { e->supp = new std::vector<uint32_t>{e->off}; return *e->supp; }
    const std::vector<uint32_t>* cur = &support(e->a);
    std::vector<uint32_t>        tmp;
    bool own = false;
    for (E o : {e->b, e->c})
    {
        if (!o) continue;
        const auto& s = support(o);
        if (s.empty() || &s == cur) continue;
        if (cur->empty()) { cur = &s; continue; }
        if (std::includes(cur->begin(), cur->end(), s.begin(), s.end())) continue;
        std::vector<uint32_t> u;
        std::set_union(cur->begin(), cur->end(), s.begin(), s.end(), std::back_inserter(u));
        tmp = std::move(u);
        own = true;
        cur = &tmp;
    }
    if (own) e->supp = new std::vector<uint32_t>(std::move(tmp));
    else e->supp = cur;
    return *e->supp;
}

std::string str(E e, int d)
{
    static const char* N[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                              "eq", "ult", "slt", "not", "concat", "extract", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "funo"};
    if (!e) return "?";
    if (e->k == K::Const) { llvm::SmallString<40> s; e->val.toStringUnsigned(s, 16); return "0x" + std::string(s.str()) + ":" + std::to_string(e->w); }
    if (e->k == K::Var) return g_vars[e->off].name;
    if (d <= 0) return "...";
    std::string r = std::string("(") + N[(int)e->k];
    if (e->k == K::Extract) r += "[" + std::to_string(e->off) + "+" + std::to_string(e->w) + "]";
    for (E o : {e->a, e->b, e->c}) if (o) r += " " + str(o, d - 1);
    return r + ")";
}
