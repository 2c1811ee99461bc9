// Hash-consed bit-vector expression DAG with simplification, evaluation and z3 conversion.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <stdexcept>
#include <z3++.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
  OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OIte, OConcat, OExtract, OZExt, OSExt, OBar, OI2F };

struct Expr {
  Op op; uint16_t w; uint16_t ctree; // ctree: number of constant leaves if an all-constant ite tree
  uint32_t aux;                      // extract low bit / variable index / I2F magnitude bits
  uint32_t id;
  Expr *k[3];
  u128 c;
  u64 lo, hi;                        // unsigned interval (w<=64)
  uint32_t gen; u128 ev;             // evaluation cache
  uint32_t z3i;                      // 1+index in the z3 cache
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
inline __int128 sext(u128 c, unsigned w) { if (w>=128) return (__int128)c; u128 m=(u128)1<<(w-1); c&=maskw(w); return (__int128)((c ^ m) - m); }

struct VarInfo { std::string name; unsigned w; u64 lo, hi; };
extern std::vector<VarInfo> g_vars;

typedef std::unordered_map<uint32_t,u64> Model;

Expr *mkConst(unsigned w, u128 c);
Expr *mkVar(const std::string &name, unsigned w, u64 lo, u64 hi); // same name+width => same var
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkAndB(Expr *a, Expr *b);
Expr *mkOrB(Expr *a, Expr *b);
Expr *mkI2F(Expr *e, unsigned bits, unsigned w=64);
Expr *mkBar(Expr *e); // identity that the simplifier does not look through
inline bool isC(Expr *e) { return e->op == OConst; }
inline bool isTrue(Expr *e) { return e->op == OConst && e->w==1 && e->c; }
inline bool isFalse(Expr *e) { return e->op == OConst && e->w==1 && !e->c; }
u128 evalExpr(Expr *e, const Model &m);
unsigned trailingZeros(Expr *e);
std::string exprStr(Expr *e, int depth=6);
extern uint64_t g_nexprs;
extern uint32_t g_evalgen;
u128 evalRec(Expr *e, const Model &m);

struct Solver {
  z3::context ctx;
  z3::solver inc;
  std::vector<Expr*> stack;
  std::vector<z3::ast> cache;   // by z3i-1
  u64 queries=0, sat=0, unsat=0, unknown=0, hard=0; double secs=0;
  unsigned inc_timeout_ms=4000, hard_timeout_ms=600000;
  Solver();
  z3::expr conv(Expr *e);
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Expr*> &pc, Expr *cond, Model *out, bool quick=false); // quick: give up (-1) after the incremental attempt
};
