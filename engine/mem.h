// Copy-on-write memory: object id -> object, persistent radix tree.
#pragma once
#include "prog.h"
struct Sym { Expr *e; uint32_t idx; };
enum ObjKind : uint8_t { K_Heap, K_Stack, K_Global, K_Func, K_Const };
struct Acc { uint8_t wt; uint32_t wc; uint32_t rc[6]; };          // last write (thread, clock), last reads per thread
struct Obj { uint32_t rc; uint32_t size; ObjKind kind; uint8_t how; bool freed; uint8_t *data; Sym *sym; Acc *acc; const void *site; };
extern u64 g_objBytes;
inline Obj *newObj(u64 size, ObjKind k) { Obj *o=(Obj*)malloc(sizeof(Obj)); o->rc=1; o->size=size; o->kind=k; o->how=0; o->freed=false; o->sym=nullptr; o->acc=nullptr; o->site=nullptr;
  o->data=(uint8_t*)malloc(size?size:1); g_objBytes+=size; return o; }
inline void unrefObj(Obj *o) { if (--o->rc==0) { g_objBytes-=o->size; free(o->data); free(o->sym); free(o->acc); free(o); } }
inline Obj *cloneObj(Obj *o) { Obj *n=newObj(o->size,o->kind); n->how=o->how; n->freed=o->freed; n->site=o->site; if (o->freed) return n;
  memcpy(n->data,o->data,o->size); if (o->sym) { n->sym=(Sym*)malloc(sizeof(Sym)*(o->size?o->size:1)); memcpy(n->sym,o->sym,sizeof(Sym)*o->size); }
  if (o->acc) { size_t k=(o->size+3)/4; n->acc=(Acc*)malloc(sizeof(Acc)*k); memcpy(n->acc,o->acc,sizeof(Acc)*k); } return n; }
const int RB=6, RLEV=5; // 30 bits of object ids
struct RNode { uint32_t rc; void *k[1<<RB]; };
inline void unrefNode(RNode *n, int lev) { if (--n->rc) return; for (int i=0;i<(1<<RB);i++) if (n->k[i]) { if (lev==RLEV-1) unrefObj((Obj*)n->k[i]); else unrefNode((RNode*)n->k[i],lev+1); } free(n); }
struct Mem {
  RNode *root;
  Mem() { root=(RNode*)calloc(1,sizeof(RNode)); root->rc=1; }
  Mem(const Mem &o) { root=o.root; root->rc++; }
  Mem &operator=(const Mem &o) { if (root!=o.root) { o.root->rc++; unrefNode(root,0); root=o.root; } return *this; }
  ~Mem() { unrefNode(root,0); }
  Obj *get(u64 id) const { RNode *n=root; if (id>>(RB*RLEV)) return nullptr; for (int l=0;l<RLEV;l++) { void *p=n->k[(id>>(RB*(RLEV-1-l)))&((1<<RB)-1)]; if (!p) return nullptr; if (l==RLEV-1) return (Obj*)p; n=(RNode*)p; } return nullptr; }
  static RNode *own(RNode *n, int lev) { if (n->rc==1) return n; RNode *m=(RNode*)malloc(sizeof(RNode)); *m=*n; m->rc=1; n->rc--;
    for (int i=0;i<(1<<RB);i++) if (m->k[i]) { if (lev==RLEV-1) ((Obj*)m->k[i])->rc++; else ((RNode*)m->k[i])->rc++; } return m; }
  void **slot(u64 id) { root=own(root,0); RNode *n=root; for (int l=0;;l++) { void **p=&n->k[(id>>(RB*(RLEV-1-l)))&((1<<RB)-1)]; if (l==RLEV-1) return p;
      if (!*p) { RNode *m=(RNode*)calloc(1,sizeof(RNode)); m->rc=1; *p=m; } else *p=own((RNode*)*p,l+1); n=(RNode*)*p; } }
  void put(u64 id, Obj *o) { void **p=slot(id); if (*p) unrefObj((Obj*)*p); *p=o; }
  Obj *getW(u64 id) { if (id>>(RB*RLEV)) return nullptr; void **p=slot(id); Obj *o=(Obj*)*p; if (o && o->rc>1) { Obj *n=cloneObj(o); o->rc--; *p=n; o=n; } return o; }
};
