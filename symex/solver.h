#pragma once
#include "expr.h"
#include <map>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, fpcalls = 0, unknown = 0, sat = 0, unsat = 0; double time = 0; };
extern SolverStats g_ss;
extern unsigned g_timeoutMs; extern double g_deadline;
// Is (and cs) satisfiable?  On SAT a model of the variables of cs is returned.
SatRes solve(const std::vector<const Expr*>& cs, ModelP* model);
// Satisfiability of pc && goal, slicing pc to the constraints related to goal. The model extends `base`.
SatRes solvePC(const std::vector<const Expr*>& pc, const Expr* goal, const ModelP& base, ModelP* out);
