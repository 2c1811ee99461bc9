#pragma once
#include "prog.h"
#include "mem.h"
#include <llvm/IR/DataLayout.h>
#include <memory>
struct Unsup { std::string msg; Unsup(const std::string &m):msg(m) {} };
extern const llvm::DataLayout *g_DL;
extern std::map<const llvm::Function*,Func*> g_funcs;
extern std::map<const llvm::Instruction*,std::string> g_unsupMsg;
extern std::map<const llvm::Type*,std::vector<Leaf>> leafCache;
std::vector<Leaf> &leavesOf(llvm::Type *T);
Func *getFunc(llvm::Function *F);
u64 addrOfGlobal(const llvm::GlobalValue *G);
void initGlobalMem(Obj *o, llvm::Constant *C, u64 off);
void translate(Func *f);
int ipdomOf(Func *f, int block);
