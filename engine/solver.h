// Satisfiability of path conditions through z3 (bit-blasting, incremental).
#pragma once
#include "expr.h"
#include <vector>

struct SolverStats { u64 queries, sat, unsat, unknown, cacheHits; double time; double maxTime; };
extern SolverStats gSol;
// 1 sat (model values of the variables in `vars` stored), 0 unsat, -1 unknown
int solve(const std::vector<Expr *> &cs, const std::vector<int> &vars, uint8_t *model);
