#pragma once
#include "expr.h"
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, synHits = 0; double secs = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
// Is /\cs satisfiable? On SAT fills m (values for all variables occurring in cs).
Res solverCheck(const std::vector<Expr*>& cs, ModelV& m);
double nowSecs();
