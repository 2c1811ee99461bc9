#include "hse.h"
using namespace llvm;

std::map<const Type*,std::vector<Leaf>> leafCache;
std::vector<Leaf> &leavesOf(Type *T) {
  auto it=leafCache.find(T); if (it!=leafCache.end()) return it->second;
  std::vector<Leaf> r; const DataLayout &DL=*g_DL;
  if (T->isVoidTy()) {}
  else if (auto *ST=dyn_cast<StructType>(T)) { auto *SL=DL.getStructLayout(ST); for (unsigned i=0;i<ST->getNumElements();i++) { auto &sub=leavesOf(ST->getElementType(i)); for (auto l:sub) { l.off+=SL->getElementOffset(i); r.push_back(l); } } }
  else if (auto *AT=dyn_cast<ArrayType>(T)) { u64 sz=DL.getTypeAllocSize(AT->getElementType()); for (u64 i=0;i<AT->getNumElements();i++) { auto sub=leavesOf(AT->getElementType()); for (auto l:sub) { l.off+=i*sz; r.push_back(l); } } }
  else if (auto *VT=dyn_cast<FixedVectorType>(T)) { u64 bits=DL.getTypeSizeInBits(VT->getElementType()); for (unsigned i=0;i<VT->getNumElements();i++) r.push_back({i*((bits+7)/8),(uint16_t)bits,VT->getElementType()->isFloatingPointTy()}); }
  else if (T->isPointerTy()) r.push_back({0,64,false});
  else if (T->isIntegerTy()) r.push_back({0,(uint16_t)T->getIntegerBitWidth(),false});
  else if (T->isFloatTy()) r.push_back({0,32,true});
  else if (T->isDoubleTy()) r.push_back({0,64,true});
  else if (T->isX86_FP80Ty()) r.push_back({0,80,true});
  else if (T->isTokenTy()||T->isMetadataTy()||T->isLabelTy()) {}
  else throw Unsup("type");
  return leafCache[T]=r;
}
static unsigned bitsOf(Type *T) { if (T->isVectorTy()) T=cast<VectorType>(T)->getElementType(); return T->isPointerTy()?64:g_DL->getTypeSizeInBits(T); }

Func *getFunc(llvm::Function *F) {
  auto it=g_funcs.find(F); if (it!=g_funcs.end()) return it->second;
  Func *f=new Func; f->F=F; f->name=F->getName().str(); g_funcs[F]=f; return f;
}
static void constVals(Constant *C, std::vector<V> &out);
static V constScalar(Constant *C) {
  if (auto *CI=dyn_cast<ConstantInt>(C)) { auto &A=CI->getValue(); if (A.getBitWidth()<=64) return vc(A.getZExtValue()); if (A.getBitWidth()>128) throw Unsup("int width");
    u128 v=A.getRawData()[0]; v|=(u128)A.getRawData()[1]<<64; return V{mkConst(A.getBitWidth(),v),0}; }
  if (auto *CF=dyn_cast<ConstantFP>(C)) { auto A=CF->getValueAPF().bitcastToAPInt(); if (A.getBitWidth()<=64) return vc(A.getZExtValue()); u128 v=A.getRawData()[0]; v|=(u128)A.getRawData()[1]<<64; return V{mkConst(A.getBitWidth(),v),0}; }
  if (isa<ConstantPointerNull>(C)) return vc(0);
  if (isa<UndefValue>(C)) { unsigned w=bitsOf(C->getType()); if (w>64) return V{mkConst(w,0),0}; return vc(0xCBCBCBCBCBCBCBCBull&mask64(w)); }
  if (auto *GA=dyn_cast<GlobalAlias>(C)) return constScalar(GA->getAliasee());
  if (auto *F=dyn_cast<Function>(C)) return vc(addrOfGlobal(F));
  if (auto *G=dyn_cast<GlobalVariable>(C)) return vc(addrOfGlobal(G));
  if (auto *CE=dyn_cast<ConstantExpr>(C)) {
    unsigned w=bitsOf(CE->getType());
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64,0); auto *GO=cast<GEPOperator>(CE); if (!GO->accumulateConstantOffset(*g_DL,off)) throw Unsup("constant gep"); return vc(constScalar(CE->getOperand(0)).c+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(CE->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return vc(constScalar(CE->getOperand(0)).c&mask64(w));
      case Instruction::Sub: return vc((constScalar(CE->getOperand(0)).c-constScalar(CE->getOperand(1)).c)&mask64(w));
      case Instruction::Add: return vc((constScalar(CE->getOperand(0)).c+constScalar(CE->getOperand(1)).c)&mask64(w));
      case Instruction::ICmp: { u64 a=constScalar(CE->getOperand(0)).c,b=constScalar(CE->getOperand(1)).c; if (CE->getPredicate()==CmpInst::ICMP_EQ) return vc(a==b); if (CE->getPredicate()==CmpInst::ICMP_NE) return vc(a!=b); break; }
      case Instruction::Select: return constScalar(CE->getOperand(0)).c? constScalar(CE->getOperand(1)):constScalar(CE->getOperand(2));
    }
  }
  if (auto *D=dyn_cast<DSOLocalEquivalent>(C)) return constScalar(const_cast<GlobalValue*>(D->getGlobalValue()));
  std::string s; raw_string_ostream os(s); C->print(os); throw Unsup("constant "+s);
}
static void constVals(Constant *C, std::vector<V> &out) {
  Type *T=C->getType();
  if (T->isStructTy()||T->isArrayTy()||T->isVectorTy()) {
    unsigned n = T->isStructTy()? T->getStructNumElements() : T->isArrayTy()? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i=0;i<n;i++) { Constant *e=C->getAggregateElement(i); if (!e) throw Unsup("aggregate constant"); constVals(e,out); }
  } else out.push_back(constScalar(C));
}
void initGlobalMem(Obj *o, Constant *C, u64 off) {
  Type *T=C->getType();
  if (isa<ConstantAggregateZero>(C)) return; // zeroed already
  if (isa<UndefValue>(C)) return;
  if (auto *D=dyn_cast<ConstantDataSequential>(C)) { StringRef r=D->getRawDataValues(); memcpy(o->data+off,r.data(),r.size()); return; }
  if (T->isStructTy()) { auto *SL=g_DL->getStructLayout(cast<StructType>(T)); for (unsigned i=0;i<T->getStructNumElements();i++) initGlobalMem(o,C->getAggregateElement(i),off+SL->getElementOffset(i)); return; }
  if (T->isArrayTy()) { u64 sz=g_DL->getTypeAllocSize(T->getArrayElementType()); for (u64 i=0;i<T->getArrayNumElements();i++) initGlobalMem(o,C->getAggregateElement(i),off+i*sz); return; }
  if (T->isVectorTy()) { u64 sz=(bitsOf(T)+7)/8; for (u64 i=0;i<cast<FixedVectorType>(T)->getNumElements();i++) initGlobalMem(o,C->getAggregateElement(i),off+i*sz); return; }
  V v=constScalar(C); unsigned w=bitsOf(T); if (w<=64) memcpy(o->data+off,&v.c,(w+7)/8); else { u128 c=v.e->c; memcpy(o->data+off,&c,(w+7)/8); }
}
struct Tr {
  Func *f; std::map<const Value*,int> slot; std::map<const Constant*,int> cslot; std::map<const BasicBlock*,int> bix;
  int opd(Value *v) {
    if (auto *C=dyn_cast<Constant>(v)) { auto it=cslot.find(C); if (it!=cslot.end()) return it->second; std::vector<V> vs; constVals(C,vs); int ix=f->consts.size(); for (auto &x:vs) f->consts.push_back(x); if (vs.empty()) f->consts.push_back(vc(0)); return cslot[C]=~ix; }
    auto it=slot.find(v); if (it!=slot.end()) return it->second;
    if (isa<InlineAsm>(v)||isa<MetadataAsValue>(v)) return ~0;
    throw Unsup("operand");
  }
  int cnst(V v) { f->consts.push_back(v); return ~(int)(f->consts.size()-1); }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target=bix[to]; e.m0=f->moves.size();
    for (auto &P:to->phis()) { int n=leavesOf(P.getType()).size(); int idx=P.getBasicBlockIndex(from); f->moves.push_back({slot[&P],opd(P.getIncomingValue(idx)),n}); }
    e.m1=f->moves.size(); f->edges.push_back(e); return f->edges.size()-1;
  }
};
static int predOf(CmpInst::Predicate p) { return (int)p; }
void translate(Func *f) {
  if (f->ready) return; f->ready=true;
  Function &F=*f->F; Tr t; t.f=f; int ns=0;
  f->consts.push_back(vc(0));
  auto addW=[&](Type *T){ try { for (auto &l:leavesOf(T)) f->slotW.push_back(l.w); } catch (Unsup&) { f->slotW.push_back(0); } };
  for (auto &A:F.args()) { int n=leavesOf(A.getType()).size(); addW(A.getType()); t.slot[&A]=ns; f->args.push_back({ns,n}); ns+=n; }
  int bi=0; for (auto &B:F) { t.bix[&B]=bi++; for (auto &I:B) { if (!I.getType()->isVoidTy()) { int n=0; try { n=leavesOf(I.getType()).size(); } catch (Unsup&) { n=1; } addW(I.getType()); t.slot[&I]=ns; ns+=n; } } }
  f->nslots=ns; f->blockStart.resize(bi);
  for (auto &B:F) {
    f->blockStart[t.bix[&B]]=f->code.size();
    for (auto &I:B) {
      if (isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
      Instr r; memset(&r,0,sizeof r); r.I=&I; r.dst=I.getType()->isVoidTy()?-1:t.slot[&I];
      try {
      Type *T=I.getType(); if (!T->isVoidTy()) { auto &L=leavesOf(T); r.n=L.size(); r.w=L.empty()?0:L[0].w; }
      if (auto *BO=dyn_cast<BinaryOperator>(&I)) {
        bool fp=T->isFPOrFPVectorTy(); r.op=fp?I_FBin:I_Bin; r.a=t.opd(BO->getOperand(0)); r.b=t.opd(BO->getOperand(1));
        switch (BO->getOpcode()) { case Instruction::Add: r.sub=OAdd; break; case Instruction::Sub: r.sub=OSub; break; case Instruction::Mul: r.sub=OMul; break;
          case Instruction::UDiv: r.sub=OUDiv; break; case Instruction::SDiv: r.sub=OSDiv; break; case Instruction::URem: r.sub=OURem; break; case Instruction::SRem: r.sub=OSRem; break;
          case Instruction::And: r.sub=OAnd; break; case Instruction::Or: r.sub=OOr; break; case Instruction::Xor: r.sub=OXor; break; case Instruction::Shl: r.sub=OShl; break; case Instruction::LShr: r.sub=OLShr; break; case Instruction::AShr: r.sub=OAShr; break;
          case Instruction::FAdd: r.sub=0; break; case Instruction::FSub: r.sub=1; break; case Instruction::FMul: r.sub=2; break; case Instruction::FDiv: r.sub=3; break; case Instruction::FRem: r.sub=4; break; default: throw Unsup("binop"); }
      } else if (auto *U=dyn_cast<UnaryOperator>(&I)) { r.op=I_FNeg; r.a=t.opd(U->getOperand(0)); }
      else if (auto *C=dyn_cast<ICmpInst>(&I)) { r.op=I_ICmp; r.sub=predOf(C->getPredicate()); r.a=t.opd(C->getOperand(0)); r.b=t.opd(C->getOperand(1)); r.sw=bitsOf(C->getOperand(0)->getType()); }
      else if (auto *C=dyn_cast<FCmpInst>(&I)) { r.op=I_FCmp; r.sub=predOf(C->getPredicate()); r.a=t.opd(C->getOperand(0)); r.b=t.opd(C->getOperand(1)); r.sw=bitsOf(C->getOperand(0)->getType()); }
      else if (auto *C=dyn_cast<CastInst>(&I)) {
        r.op=I_Cast; r.sub=C->getOpcode(); r.a=t.opd(C->getOperand(0)); r.sw=bitsOf(C->getSrcTy()); auto &LS=leavesOf(C->getSrcTy());
        if (C->getOpcode()==Instruction::BitCast) { if ((int)LS.size()!=r.n) { r.sub=255; r.b=LS.size(); } }
      } else if (auto *L=dyn_cast<LoadInst>(&I)) { r.op=I_Load; r.a=t.opd(L->getPointerOperand()); r.sub=L->isAtomic(); r.x=f->leaves.size(); f->leaves.push_back(&leavesOf(T)); }
      else if (auto *S=dyn_cast<StoreInst>(&I)) { r.op=I_Store; r.a=t.opd(S->getPointerOperand()); r.b=t.opd(S->getValueOperand()); r.sub=S->isAtomic(); r.x=f->leaves.size(); f->leaves.push_back(&leavesOf(S->getValueOperand()->getType())); }
      else if (auto *A=dyn_cast<AllocaInst>(&I)) { r.op=I_Alloca; r.a=t.opd(A->getArraySize()); r.c=g_DL->getTypeAllocSize(A->getAllocatedType()); }
      else if (auto *G=dyn_cast<GetElementPtrInst>(&I)) {
        if (T->isVectorTy()) throw Unsup("vector gep");
        r.op=I_Gep; r.a=t.opd(G->getPointerOperand()); GepI gi; gi.off=0;
        for (auto it=gep_type_begin(G);it!=gep_type_end(G);++it) { Value *op=it.getOperand();
          if (StructType *ST=it.getStructTypeOrNull()) gi.off+=g_DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
          else { i64 sz=g_DL->getTypeAllocSize(it.getIndexedType()); if (auto *CI=dyn_cast<ConstantInt>(op)) gi.off+=CI->getSExtValue()*sz; else gi.t.push_back({t.opd(op),(uint16_t)bitsOf(op->getType()),sz}); } }
        r.x=f->geps.size(); f->geps.push_back(gi);
      } else if (auto *Br=dyn_cast<BranchInst>(&I)) { if (Br->isUnconditional()) { r.op=I_Br; r.x=t.edge(&B,Br->getSuccessor(0)); } else { r.op=I_CondBr; r.a=t.opd(Br->getCondition()); r.b=t.edge(&B,Br->getSuccessor(0)); r.c=t.edge(&B,Br->getSuccessor(1)); } }
      else if (auto *S=dyn_cast<SwitchInst>(&I)) { r.op=I_Switch; r.a=t.opd(S->getCondition()); r.sw=bitsOf(S->getCondition()->getType()); SwitchI si; for (auto &c:S->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(),t.edge(&B,c.getCaseSuccessor())}); si.def=t.edge(&B,S->getDefaultDest()); r.x=f->switches.size(); f->switches.push_back(si); }
      else if (auto *R=dyn_cast<ReturnInst>(&I)) { r.op=I_Ret; if (R->getReturnValue()) { r.a=t.opd(R->getReturnValue()); r.n=leavesOf(R->getReturnValue()->getType()).size(); } else r.n=0; }
      else if (auto *C=dyn_cast<CallBase>(&I)) {
        r.op=I_Call; CallI ci; Value *cv=C->getCalledOperand()->stripPointerCasts(); if (auto *GA=dyn_cast<GlobalAlias>(cv)) cv=GA->getAliaseeObject();
        if (isa<InlineAsm>(cv)) { r.op=I_Nop; auto *IA=cast<InlineAsm>(cv); if (!IA->getAsmString().empty()) throw Unsup("inline asm"); f->code.push_back(r); continue; }
        if (auto *CF=dyn_cast<Function>(cv)) { ci.callee=getFunc(CF); ci.intrinsic=CF->getIntrinsicID(); } else ci.calleeOpd=t.opd(C->getCalledOperand());
        if (auto *II=dyn_cast<IntrinsicInst>(&I)) { auto id=II->getIntrinsicID(); if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::donothing||id==Intrinsic::var_annotation||id==Intrinsic::prefetch||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end) continue; }
        for (unsigned i=0;i<C->arg_size();i++) { Value *a=C->getArgOperand(i); if (isa<MetadataAsValue>(a)) { ci.args.push_back({~0,1}); ci.byval.push_back(0); ci.argW.push_back(64); continue; }
          auto &L=leavesOf(a->getType()); ci.args.push_back({t.opd(a),(int)L.size()}); ci.argW.push_back(L.empty()?0:L[0].w); ci.byval.push_back(C->isByValArgument(i)? g_DL->getTypeAllocSize(C->getParamByValType(i)).getFixedValue():0); }
        ci.retN=r.n; ci.retW=r.w;
        if (auto *IV=dyn_cast<InvokeInst>(C)) { ci.normal=t.edge(&B,IV->getNormalDest()); ci.unwind=t.edge(&B,IV->getUnwindDest()); }
        r.x=f->calls.size(); f->calls.push_back(ci);
      } else if (auto *S=dyn_cast<SelectInst>(&I)) { r.op=I_Select; r.a=t.opd(S->getCondition()); r.b=t.opd(S->getTrueValue()); r.c=t.opd(S->getFalseValue()); r.sub=S->getCondition()->getType()->isVectorTy(); r.x=f->leaves.size(); f->leaves.push_back(&leavesOf(T)); }
      else if (auto *E=dyn_cast<ExtractValueInst>(&I)) { r.op=I_Extract; Type *AT=E->getAggregateOperand()->getType(); int off=0; for (unsigned ix:E->indices()) { if (AT->isStructTy()) { for (unsigned j=0;j<ix;j++) off+=leavesOf(AT->getStructElementType(j)).size(); AT=AT->getStructElementType(ix); } else { off+=ix*leavesOf(AT->getArrayElementType()).size(); AT=AT->getArrayElementType(); } } r.a=t.opd(E->getAggregateOperand()); r.b=off; }
      else if (auto *E=dyn_cast<InsertValueInst>(&I)) { r.op=I_Insert; Type *AT=E->getAggregateOperand()->getType(); int off=0; for (unsigned ix:E->indices()) { if (AT->isStructTy()) { for (unsigned j=0;j<ix;j++) off+=leavesOf(AT->getStructElementType(j)).size(); AT=AT->getStructElementType(ix); } else { off+=ix*leavesOf(AT->getArrayElementType()).size(); AT=AT->getArrayElementType(); } } r.a=t.opd(E->getAggregateOperand()); r.b=t.opd(E->getInsertedValueOperand()); r.c=off; r.x=leavesOf(E->getInsertedValueOperand()->getType()).size(); }
      else if (isa<UnreachableInst>(I)) r.op=I_Unreach;
      else if (isa<LandingPadInst>(I)) r.op=I_LPad;
      else if (auto *R=dyn_cast<ResumeInst>(&I)) { r.op=I_Resume; r.a=t.opd(R->getValue()); }
      else if (auto *R=dyn_cast<AtomicRMWInst>(&I)) { r.op=I_RMW; r.sub=R->getOperation(); r.a=t.opd(R->getPointerOperand()); r.b=t.opd(R->getValOperand()); }
      else if (auto *R=dyn_cast<AtomicCmpXchgInst>(&I)) { r.op=I_CmpXchg; r.a=t.opd(R->getPointerOperand()); r.b=t.opd(R->getCompareOperand()); r.c=t.opd(R->getNewValOperand()); r.w=bitsOf(R->getCompareOperand()->getType()); }
      else if (isa<FreezeInst>(I)) { r.op=I_Copy; r.a=t.opd(I.getOperand(0)); }
      else if (isa<FenceInst>(I)) r.op=I_Nop;
      else if (auto *E=dyn_cast<ExtractElementInst>(&I)) { r.op=I_ExtractElt; r.a=t.opd(E->getVectorOperand()); r.b=t.opd(E->getIndexOperand()); }
      else if (auto *E=dyn_cast<InsertElementInst>(&I)) { r.op=I_InsertElt; r.a=t.opd(E->getOperand(0)); r.b=t.opd(E->getOperand(1)); r.c=t.opd(E->getOperand(2)); }
      else if (auto *E=dyn_cast<ShuffleVectorInst>(&I)) { r.op=I_Shuffle; r.a=t.opd(E->getOperand(0)); r.b=t.opd(E->getOperand(1)); r.c=leavesOf(E->getOperand(0)->getType()).size(); std::vector<int> m; for (int k:E->getShuffleMask()) m.push_back(k); r.x=f->lists.size(); f->lists.push_back(m); }
      else throw Unsup("instruction");
      } catch (Unsup &u) { r.op=I_Unsup; r.x=f->lists.size(); f->lists.push_back({}); g_unsupMsg[&I]=u.msg; }
      f->code.push_back(r);
    }
  }
  f->blockOf.resize(f->code.size()); for (size_t b=0;b<f->blockStart.size();b++) { size_t e=b+1<f->blockStart.size()? f->blockStart[b+1]:f->code.size(); for (size_t i=f->blockStart[b];i<e;i++) f->blockOf[i]=b; }
}
// Immediate post-dominators over the blocks that can reach a return; edges into dead ends (throwing, aborting or
// unwinding blocks) are ignored, so that a check which may fail does not hide the join point.
int ipdomOf(Func *f, int block) {
  if (!f->ipdomReady) {
    f->ipdomReady=true; std::map<const BasicBlock*,int> bix; std::vector<const BasicBlock*> bbs; for (auto &B:*f->F) { bix[&B]=bbs.size(); bbs.push_back(&B); }
    int n=bbs.size(), X=n; std::vector<std::vector<int>> succ(n+1), pred(n+1);
    for (int i=0;i<n;i++) { if (isa<ReturnInst>(bbs[i]->getTerminator())) succ[i].push_back(X); for (auto *S:successors(bbs[i])) succ[i].push_back(bix[S]); }
    for (int i=0;i<n;i++) for (int s:succ[i]) pred[s].push_back(i);
    std::vector<int> order, num(n+1,-1); // post order of the reverse graph from X
    std::vector<std::pair<int,size_t>> st{{X,0}}; std::vector<char> seen(n+1,0); seen[X]=1;
    while (!st.empty()) { auto &[b,k]=st.back(); if (k<pred[b].size()) { int p=pred[b][k++]; if (!seen[p]) { seen[p]=1; st.push_back({p,0}); } } else { num[b]=order.size(); order.push_back(b); st.pop_back(); } }
    std::vector<int> dom(n+1,-1); dom[X]=X; bool ch=true;
    while (ch) { ch=false; for (int i=(int)order.size()-1;i>=0;i--) { int b=order[i]; if (b==X) continue; int nd=-1;
        for (int s:succ[b]) if (dom[s]>=0) { if (nd<0) nd=s; else { int a=nd,c=s; while (a!=c) { while (num[a]<num[c]) a=dom[a]; while (num[c]<num[a]) c=dom[c]; } nd=a; } }
        if (nd>=0 && dom[b]!=nd) { dom[b]=nd; ch=true; } } }
    f->ipdom.assign(n,-1); for (int i=0;i<n;i++) f->ipdom[i]= (dom[i]<0||dom[i]==X)? -1: dom[i];
  }
  return f->ipdom[block];
}
