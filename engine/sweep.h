#pragma once
#include "expr.h"
#include <functional>
struct SweepStats { u64 calls=0, proved=0, queries=0, merged=0, uncut=0, failed=0; double secs=0; };
extern std::vector<Expr*> g_hints;
Expr *sweepProve(Solver &S, const std::vector<Expr*> &pc, Expr *cond, const Model *seed, unsigned budget_s, SweepStats &st);
