#pragma once
#include "expr.h"
#include <z3.h>

struct SolverStats {
    uint64_t queries = 0, cacheHits = 0, unknown = 0, sat = 0, unsat = 0, slow = 0;
    double   seconds = 0, maxQuery = 0;
};
class Solver
{
  public:
    enum R { SAT, UNSAT, UNK };
    Solver();
    // cs must be satisfiable together; asks whether cs && extra is. On SAT and model != null the
    // returned assignment extends/overrides `base` (which must satisfy cs).
    R check(const std::vector<E>& cs, E extra, const Assignment& base, Assignment* model);
    SolverStats stats;
    unsigned    timeoutMs = 60000;
    std::string dumpDir;

  private:
    Z3_context ctx;
    Z3_solver  inc;
    Z3_sort    bvs(uint32_t w);
    Z3_ast     bv(E e);
    Z3_ast     boolean(E e);
    Z3_ast     bvAtom(E e);
    struct CacheEnt { R r; std::vector<std::pair<uint32_t, APInt>> m; };
    std::unordered_map<std::string, CacheEnt> cache;
};
