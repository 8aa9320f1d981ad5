#pragma once
#include "poly.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <memory>
#include <functional>
#include <chrono>
#include <cfloat>
#include <cfenv>

struct Agg;
enum VK : uint8_t { V_UNDEF=0, V_INT, V_FLT, V_POLY, V_SYM, V_AGG };
struct Val { VK k; uint8_t w; union { uint64_t i; double d; const Poly* p; int s; Agg* a; }; };
struct Agg { std::vector<Val> v; std::vector<uint16_t> off; bool packed=false; int size=0; };
static inline Val VI(uint64_t i,int w){ Val v; v.k=V_INT; v.w=w; v.i= w>=64? i : (i&((1ULL<<w)-1)); return v; }
static inline Val VF(double d){ Val v; v.k=V_FLT; v.w=0; v.d=d; return v; }
static inline Val VP(const Poly*p){ Val v; v.k=V_POLY; v.w=0; v.p=p; return v; }
static inline Val VU(){ Val v; v.k=V_UNDEF; v.w=0; v.i=0; return v; }
static inline Val VS(int s,int w){ Val v; v.k=V_SYM; v.w=w; v.i=0; v.s=s; return v; }
static inline Val VA(Agg*a){ Val v; v.k=V_AGG; v.w=0; v.a=a; return v; }
static inline int64_t sx(uint64_t i,int w){ return w>=64? (int64_t)i : ((int64_t)(i<<(64-w)))>>(64-w); }

struct MT { enum K:uint8_t {INT,PTR,F32,F64,AGGR} k; uint32_t size; uint8_t bits; std::vector<MT> el; std::vector<uint16_t> off; };

struct Opd { int slot=-1; Val c; int gidx=-1; };
struct DFunc;
struct Thread;
struct Engine;
struct DI;
typedef int (*Handler)(Engine&,Thread&,const DI&,Val*args,int n,Val&ret); // 0 done, 1 blocked(retry), 2 pushed frame/done no advance
struct PhiCopy { int dst; Opd src; };
struct DI {
  uint8_t op; uint8_t pred=0; uint8_t w=0; uint8_t w2=0; bool nsw=false, nuw=false; int dst=-1; std::vector<Opd> ops;
  MT mt; int bbs[2]={-1,-1}; std::vector<std::pair<uint64_t,int>> cases; std::vector<std::vector<PhiCopy>> phis; // per-successor
  std::vector<std::pair<int,uint64_t>> gepIdx; uint64_t gepOff=0; std::vector<unsigned> idx; std::vector<int> mask;
  DFunc*callee=nullptr; Handler h=nullptr; std::string name; const llvm::Instruction*I=nullptr; uint64_t esz=0;
};
struct DBlock { std::vector<DI> ins; };
struct DFunc { llvm::Function*F; bool decoded=false; int nslots=0; int nargs=0; std::vector<DBlock> bbs; bool repo=false; std::string name; bool used=false; int fidx=0; long calls=0; };
enum { OK_HEAP=1, OK_STACK, OK_GLOBAL, OK_FUNC, OK_FILE };
struct Shadow { std::vector<uint8_t> d; };
struct AccRec { uint32_t phase; int16_t wt; int16_t wl; // single writer record
  uint16_t rmask; int16_t rl[8]; };
struct Obj { uint32_t size=0; uint8_t kind=0; bool alive=true; bool ro=false; std::vector<uint8_t> data,tag; std::map<uint32_t,Val> cells; std::unordered_map<uint32_t,AccRec> sh; const llvm::Instruction* site=nullptr; int owner=-1; uint32_t seq=0; };
struct Team { int n; int arrived=0; int gen=0; int doneCnt=0; Thread*parent; uint32_t phase; int singleGen=0; std::map<int,int> singleTaken; int lo,hi; struct Disp{ int64_t cur,ub,st,chunk; bool is64=false; }; std::map<int,Disp> disp; };
struct Frame { DFunc*f; int bb=0, pc=0; uint32_t base; std::vector<uint32_t> allocas; int retSlot=-1; std::vector<size_t> saves; };
struct Proc { int rank=0; std::vector<Obj*> globals; };
struct Thread { int id; int tid=0; int nth=1; Team*team=nullptr; Proc*proc; std::vector<Frame> fr; std::vector<Val> regs; enum St {RUN,WAITTEAM,BARRIER,LOCKW,MPIW,DONE} st=RUN; std::vector<int> locks; int lockset=0; std::vector<Team*> teamStack; uint64_t waitLock=0; int singleCnt=0; int dispCnt=0; bool yieldOnce=false; bool atomic=false; void*mpiWait=nullptr; std::string what; };
struct Dec { char k; int64_t v; };
typedef std::vector<Q> Wit; // values of the real inputs by id: a concrete point satisfying the path condition
struct Prefix : std::vector<Dec> { std::vector<Wit> wit; };
struct Cons { z3::expr e; std::vector<int> vars; bool nl; z3::expr lin; };
struct PathEnd { std::string why; };
struct Viol { std::string kind,msg,where; std::vector<std::string> stack; std::string inputs; std::string detail; };
struct Unsup { std::string msg; };
