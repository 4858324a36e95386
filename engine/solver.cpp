#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <llvm/ADT/SmallString.h>

static void errh(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error %d: %s\n", (int)e, Z3_get_error_msg(c, e));
    abort();
}
Solver::Solver()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    Z3_tactic t = nullptr;
    (void)t;
    inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, inc);
}
Z3_sort Solver::bvs(uint32_t w) { return Z3_mk_bv_sort(ctx, w); }

static Z3_ast fpOf(Z3_context ctx, Z3_ast b) { return Z3_mk_fpa_to_fp_bv(ctx, b, Z3_mk_fpa_sort_double(ctx)); }

// comparisons of doubles over their bit patterns (kept out of the floating-point theory)
static Z3_ast fpCompare(Z3_context c, K k, Z3_ast x, Z3_ast y)
{
    Z3_sort s64 = Z3_mk_bv_sort(c, 64), s63 = Z3_mk_bv_sort(c, 63);
    Z3_ast  mx = Z3_mk_extract(c, 62, 0, x), my = Z3_mk_extract(c, 62, 0, y), inf = Z3_mk_unsigned_int64(c, 0x7ff0000000000000ull, s63), z63 = Z3_mk_unsigned_int64(c, 0, s63);
    Z3_ast  n2[2] = {Z3_mk_bvugt(c, mx, inf), Z3_mk_bvugt(c, my, inf)};
    Z3_ast  uno = Z3_mk_or(c, 2, n2);
    if (k == K::FUno) return uno;
    Z3_ast z2[2] = {Z3_mk_eq(c, mx, z63), Z3_mk_eq(c, my, z63)};
    Z3_ast zeros = Z3_mk_and(c, 2, z2), same = Z3_mk_eq(c, x, y);
    Z3_ast e2[2] = {zeros, same}, eq = Z3_mk_or(c, 2, e2), ord = Z3_mk_not(c, uno);
    Z3_ast z64 = Z3_mk_unsigned_int64(c, 0, s64);
    Z3_ast nx = Z3_mk_bvslt(c, x, z64), ny = Z3_mk_bvslt(c, y, z64);
    // differing signs: x negative; both positive: |x| < |y|; both negative: |y| < |x|
    Z3_ast mag = Z3_mk_ite(c, nx, Z3_mk_bvult(c, my, mx), Z3_mk_bvult(c, mx, my));
    Z3_ast l0 = Z3_mk_ite(c, Z3_mk_eq(c, nx, ny), mag, nx);
    Z3_ast l2[2] = {Z3_mk_not(c, zeros), l0}, lt = Z3_mk_and(c, 2, l2);
    Z3_ast le2[2] = {lt, eq}, le = Z3_mk_or(c, 2, le2);
    Z3_ast r[2] = {ord, k == K::FEq ? eq : k == K::FLt ? lt : le};
    return Z3_mk_and(c, 2, r);
}
Z3_ast Solver::boolean(E e)
{
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r;
    switch (e->k)
    {
    case K::Const: r = e->val.isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
    case K::Eq: {
        if (e->a->w == 1) r = Z3_mk_eq(ctx, boolean(e->a), boolean(e->b));
        else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b));
        break;
    }
    case K::Ult: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K::Not: r = Z3_mk_not(ctx, boolean(e->a)); break;
    case K::And: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case K::Xor: r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
    case K::Ite: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->c)); break;
    case K::FEq: case K::FLt: case K::FLe: case K::FUno: r = fpCompare(ctx, e->k, bv(e->a), bv(e->b)); break;
    default: r = Z3_mk_eq(ctx, bvAtom(e), Z3_mk_unsigned_int(ctx, 1, bvs(1)));
    }
    e->z3bool = r;
    return r;
}
Z3_ast Solver::bv(E e)
{
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    bool   isb = e->w == 1 && (e->k == K::Eq || e->k == K::Ult || e->k == K::Slt || e->k == K::Not || e->k == K::And || e->k == K::Or ||
                             e->k == K::Xor || e->k == K::Ite || e->k == K::FEq || e->k == K::FLt || e->k == K::FLe || e->k == K::FUno);
    if (isb) r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int(ctx, 1, bvs(1)), Z3_mk_unsigned_int(ctx, 0, bvs(1)));
    else r = bvAtom(e);
    e->z3bv = r;
    return r;
}
Z3_ast Solver::bvAtom(E e)
{
    switch (e->k)
    {
    case K::Const: {
        if (e->w <= 64) return Z3_mk_unsigned_int64(ctx, e->val.getZExtValue(), bvs(e->w));
        llvm::SmallString<80> s;
        e->val.toStringUnsigned(s, 10);
        return Z3_mk_numeral(ctx, s.c_str(), bvs(e->w));
    }
    case K::Var: return Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->off), bvs(e->w));
    case K::Add: return Z3_mk_bvadd(ctx, bv(e->a), bv(e->b));
    case K::Sub: return Z3_mk_bvsub(ctx, bv(e->a), bv(e->b));
    case K::Mul: return Z3_mk_bvmul(ctx, bv(e->a), bv(e->b));
    case K::UDiv: return Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b));
    case K::SDiv: return Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b));
    case K::URem: return Z3_mk_bvurem(ctx, bv(e->a), bv(e->b));
    case K::SRem: return Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b));
    case K::And: return Z3_mk_bvand(ctx, bv(e->a), bv(e->b));
    case K::Or: return Z3_mk_bvor(ctx, bv(e->a), bv(e->b));
    case K::Xor: return Z3_mk_bvxor(ctx, bv(e->a), bv(e->b));
    case K::Shl: return Z3_mk_bvshl(ctx, bv(e->a), bv(e->b));
    case K::LShr: return Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b));
    case K::AShr: return Z3_mk_bvashr(ctx, bv(e->a), bv(e->b));
    case K::Concat: return Z3_mk_concat(ctx, bv(e->a), bv(e->b));
    case K::Extract: return Z3_mk_extract(ctx, e->off + e->w - 1, e->off, bv(e->a));
    case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a));
    case K::Ite: return Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->c));
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: {
        Z3_ast x = bv(e->a), y = bv(e->b), fx = fpOf(ctx, x), fy = fpOf(ctx, y), rm = Z3_mk_fpa_rne(ctx);
        Z3_ast f = e->k == K::FAdd ? Z3_mk_fpa_add(ctx, rm, fx, fy) : e->k == K::FSub ? Z3_mk_fpa_sub(ctx, rm, fx, fy) : e->k == K::FMul ? Z3_mk_fpa_mul(ctx, rm, fx, fy) : Z3_mk_fpa_div(ctx, rm, fx, fy);
        // NaN results as the hardware gives them: the first NaN operand made quiet, else the default NaN
        Z3_ast q = Z3_mk_unsigned_int64(ctx, 0x0008000000000000ull, bvs(64)), def = Z3_mk_unsigned_int64(ctx, 0xfff8000000000000ull, bvs(64));
        Z3_ast nan = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, fx), Z3_mk_bvor(ctx, x, q), Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, fy), Z3_mk_bvor(ctx, y, q), def));
        return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), nan, Z3_mk_fpa_to_ieee_bv(ctx, f));
    }
    default: return bv(e);
    }
}

static bool overlaps(const std::vector<uint32_t>& s, const std::vector<bool>& in)
{
    for (uint32_t v : s) if (v < in.size() && in[v]) return true;
    return false;
}

static bool hasFp(E e, std::vector<char>& memo)
{
    if (e->k == K::FAdd || e->k == K::FSub || e->k == K::FMul || e->k == K::FDiv) return true;
    if (e->id >= memo.size()) memo.resize(e->id + 1024, 0);
    if (memo[e->id]) return memo[e->id] == 2;
    bool r = (e->a && hasFp(e->a, memo)) || (e->b && hasFp(e->b, memo)) || (e->c && hasFp(e->c, memo));
    if (e->id >= memo.size()) memo.resize(e->id + 1024, 0);
    memo[e->id] = r ? 2 : 1;
    return r;
}
Solver::R Solver::check(const std::vector<E>& cs, E extra, const Assignment& base, Assignment* model)
{
    if (extra->isFalse()) return UNSAT;
    if (extra->isTrue()) { if (model) *model = base; return SAT; }
    // slice
    std::vector<bool> in(g_vars.size(), false);
    for (uint32_t v : support(extra)) in[v] = true;
    std::vector<E>    rel;
    std::vector<bool> used(cs.size(), false);
    bool              ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = cs.size(); i-- > 0;)
        {
            if (used[i]) continue;
            const auto& s = support(cs[i]);
            if (!overlaps(s, in)) continue;
            used[i] = true;
            rel.push_back(cs[i]);
            for (uint32_t v : s) if (!in[v]) { in[v] = true; ch = true; }
        }
    }
    std::vector<uint32_t> ids;
    for (E e : rel) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    ids.push_back(extra->id);
    std::string key((const char*)ids.data(), ids.size() * 4);
    auto        apply = [&](const CacheEnt& c) {
        if (c.r == SAT && model)
        {
            Assignment out = base;
            if (out.size() < g_vars.size()) out.resize(g_vars.size(), APInt(1, 0));
            for (auto& p : c.m) out[p.first] = p.second;
            *model = std::move(out);
        }
        return c.r;
    };
    auto it = cache.find(key);
    if (it != cache.end()) { stats.cacheHits++; return apply(it->second); }

    auto t0 = std::chrono::steady_clock::now();
    std::sort(rel.begin(), rel.end(), [](E x, E y) { return x->id < y->id; });
    rel.erase(std::unique(rel.begin(), rel.end()), rel.end());
    CacheEnt  ent;
    Z3_lbool  r = Z3_L_UNDEF;
    Z3_model  zm = nullptr;
    Z3_solver s = inc;
    static std::vector<char> fpMemo;
    bool fp = hasFp(extra, fpMemo);
    for (E e : rel) fp = fp || hasFp(e, fpMemo);
    for (int attempt = fp ? 1 : 0; attempt < 2 && r == Z3_L_UNDEF; attempt++)
    {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), attempt == 0 ? std::min(2000u, timeoutMs) : timeoutMs);
        if (attempt == 1)
        {
            stats.slow++;
            Z3_tactic t = Z3_mk_tactic(ctx, fp ? "qffpbv" : "qfbv");
            Z3_tactic_inc_ref(ctx, t);
            s = Z3_mk_solver_from_tactic(ctx, t);
            Z3_solver_inc_ref(ctx, s);
        }
        Z3_solver_set_params(ctx, s, p);
        if (attempt == 0) Z3_solver_push(ctx, s);
        for (E e : rel) Z3_solver_assert(ctx, s, boolean(e));
        Z3_solver_assert(ctx, s, boolean(extra));
        r = Z3_solver_check(ctx, s);
        if (r == Z3_L_TRUE)
        {
            zm = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, zm);
            for (uint32_t v = 0; v < in.size(); v++)
            {
                if (!in[v]) continue;
                Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, v), bvs(g_vars[v].w));
                Z3_ast o = nullptr;
                if (!Z3_model_eval(ctx, zm, c, true, &o)) continue;
                if (g_vars[v].w <= 64)
                {
                    uint64_t u = 0;
                    Z3_get_numeral_uint64(ctx, o, &u);
                    ent.m.push_back({v, APInt(g_vars[v].w, u)});
                }
                else ent.m.push_back({v, APInt(g_vars[v].w, Z3_get_numeral_string(ctx, o), 10)});
            }
            Z3_model_dec_ref(ctx, zm);
        }
        if (attempt == 0) Z3_solver_pop(ctx, s, 1);
        Z3_params_dec_ref(ctx, p);
    }
    if (s != inc) Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    stats.queries++;
    stats.seconds += dt;
    stats.maxQuery = std::max(stats.maxQuery, dt);
    static const bool dump = getenv("VF_DUMPQ") != nullptr;
    if (dump) fprintf(stderr, "Q %.1fms r%d n%zu %s\n", dt * 1000, (int)r, rel.size(), str(extra, 3).c_str());
    ent.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
    if (ent.r == SAT) stats.sat++;
    else if (ent.r == UNSAT) stats.unsat++;
    else stats.unknown++;
    if (ent.r == SAT)
    {
        // validate the model against our own evaluator: guards against translation bugs
        Assignment out = base;
        if (out.size() < g_vars.size()) out.resize(g_vars.size(), APInt(1, 0));
        for (auto& p : ent.m) out[p.first] = p.second;
        uint64_t st = newStamp();
        bool     ok = evalExpr(extra, out, st).getBoolValue();
        for (E e : rel) ok = ok && evalExpr(e, out, st).getBoolValue();
        if (!ok) { fprintf(stderr, "solver model does not satisfy the query (translation bug)\n%s\n", str(extra, 12).c_str()); abort(); }
    }
    auto& c = cache[key] = std::move(ent);
    return apply(c);
}
