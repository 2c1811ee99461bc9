// LLVM bitcode -> internal instruction form.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

struct V { Expr *e; u64 c; };
inline V vc(u64 c) { return V{nullptr,c}; }
inline V ve(Expr *e) { if (e->op==OConst && e->w<=64) return V{nullptr,(u64)e->c}; return V{e,0}; }
inline Expr *toE(const V &v, unsigned w) { return v.e? v.e : mkConst(w,v.c); }

enum IOp : uint8_t { I_Bin, I_ICmp, I_FCmp, I_FBin, I_Cast, I_Load, I_Store, I_Alloca, I_Gep, I_Br, I_CondBr, I_Switch, I_Ret,
  I_Call, I_Select, I_Extract, I_Insert, I_Unreach, I_LPad, I_Resume, I_RMW, I_CmpXchg, I_Copy, I_FNeg, I_ExtractElt, I_InsertElt, I_Shuffle, I_Nop, I_Unsup };

struct Leaf { u64 off; uint16_t w; bool fp; };
struct Instr { uint8_t op, sub; uint8_t hit; uint16_t w, sw; int n; int dst, a, b, c, x; const llvm::Instruction *I; };
struct Move { int dst, src, n; };
struct Edge { int target, m0, m1; };
struct GepT { int opd; uint16_t w; i64 scale; };
struct GepI { i64 off; std::vector<GepT> t; };
struct Func;
struct CallI { Func *callee=nullptr; int calleeOpd=0; std::vector<std::pair<int,int>> args; std::vector<u64> byval; int normal=-1, unwind=-1; int retN=0; uint16_t retW=0; unsigned intrinsic=0; std::vector<uint16_t> argW; };
struct SwitchI { std::vector<std::pair<u64,int>> cases; int def; };
struct Func {
  llvm::Function *F; std::string name; bool ready=false; int nslots=0; u64 addr=0; int builtin=-2; // -2 unresolved
  std::vector<V> consts; std::vector<Instr> code; std::vector<int> blockStart; std::vector<Edge> edges; std::vector<Move> moves;
  std::vector<GepI> geps; std::vector<CallI> calls; std::vector<SwitchI> switches; std::vector<std::vector<int>> lists; std::vector<std::vector<Leaf>*> leaves;
  std::vector<std::pair<int,int>> args; std::vector<int> ipdom; bool ipdomReady=false; std::vector<int> blockOf; std::vector<uint16_t> slotW; u64 ncalls=0;
};
