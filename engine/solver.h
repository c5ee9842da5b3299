#pragma once
#include "expr.h"
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0; double maxSecs = 0; };
extern SolverStats solverStats;
enum SR { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };
// conjunction of cs; on S_SAT the values of the symbols in `syms` are written to m
SR solveBV(const std::vector<E> &cs, const std::vector<std::pair<uint32_t, unsigned>> &syms, Model &m, unsigned rlimit);
// real arithmetic: conjunction of O_RLT / O_REQ / O_NOT terms
SR solveReal(const std::vector<E> &cs, const std::vector<uint32_t> &rvars, Model &m, unsigned rlimit);
