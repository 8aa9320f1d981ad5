// symx: symbolic executor for LLVM bitcode of bml. See DESIGN.md.
#include "engine.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/resource.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now(){ return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

enum Op : uint8_t { OP_ADD,OP_SUB,OP_MUL,OP_UDIV,OP_SDIV,OP_UREM,OP_SREM,OP_SHL,OP_LSHR,OP_ASHR,OP_AND,OP_OR,OP_XOR,
 OP_FADD,OP_FSUB,OP_FMUL,OP_FDIV,OP_FNEG,OP_ICMP,OP_FCMP,OP_ALLOCA,OP_LOAD,OP_STORE,OP_GEP,OP_TRUNC,OP_ZEXT,OP_SEXT,OP_FPTRUNC,OP_FPEXT,OP_FPTOSI,OP_FPTOUI,OP_SITOFP,OP_UITOFP,
 OP_BITCAST,OP_BR,OP_CBR,OP_SWITCH,OP_RET,OP_CALL,OP_ICALL,OP_SELECT,OP_EXTRV,OP_INSV,OP_EXTRE,OP_INSE,OP_SHUF,OP_CMPXCHG,OP_ARMW,OP_UNREACH,OP_NOP,OP_FENCE,OP_FREEZE };

struct Stats { long paths=0,infeasible=0,steps=0,queries=0,solverCalls=0,cacheHits=0,unknown=0,forks=0,oblig=0,obligSolver=0,obligNF=0,errexit=0,assumeEnd=0,concr=0; double solverT=0; long batchUnknown=0; long races=0; };
struct Job { int id; std::string name, entry; std::map<std::string,int> par; double limit=60; long maxPaths=1000000; int samples=1; };
struct FileItem { bool isVal; int ch; Val v; };
struct FileH { std::vector<FileItem>*data; size_t pos=0; bool wr=false; bool open=true; };
struct Input { char t; std::string name; int atom=-1; int sym=-1; int64_t val=0; int vid=-1; };

struct Engine {
  LLVMContext lctx; std::unique_ptr<Module> M; const DataLayout*DL;
  std::unordered_map<const Function*,DFunc*> fmap; std::vector<DFunc*> funcs; std::map<std::string,DFunc*> fname;
  std::vector<GlobalVariable*> gvars; std::unordered_map<const GlobalVariable*,int> gidx; int G=0;
  std::map<std::string,Handler> ext;
  // path state
  PolyCtx pc; std::vector<Obj*> objs; std::vector<std::unique_ptr<Obj>> pool; size_t poolUsed=0;
  std::vector<std::unique_ptr<Agg>> aggs; std::vector<std::unique_ptr<Agg>> aggsPersist; bool persist=false;
  std::vector<std::unique_ptr<Thread>> threads; std::vector<std::unique_ptr<Team>> teams; std::vector<std::unique_ptr<Proc>> procs;
  std::unique_ptr<z3::context> zc; std::vector<z3::expr> symx; std::vector<std::set<int>> symv; 
  std::vector<Cons> cons; int nvid=0; std::map<int,z3::expr> sideCache; 
  std::map<std::string,std::vector<FileItem>> files; std::vector<FileH> fhs;
  std::vector<Input> inputs; Prefix dec; size_t decPos=0; Prefix prefix; std::vector<Prefix> frontier;
  std::unordered_map<std::string,int> qcache; long qcacheN=0; std::vector<z3::expr> qkeep;
  struct Batch { z3::expr neg; std::vector<int> vars; std::string msg; }; std::vector<Batch> batch;
  std::vector<std::pair<std::string,Val>> observed; bool wantSample=false;
  Stats st; Job*job=nullptr; std::vector<Viol> viols; std::map<std::string,long> covers; std::vector<std::string> samples;
  long steps=0; long maxSteps=60000000; int nThreads=1; int sched=0; int preempt=0; bool allowExit=false; bool trackRace=true; uint32_t phaseCtr=1; uint32_t objSeq=0;
  Thread*cur=nullptr; std::map<std::string,int> nameCnt; std::map<uint64_t,int> lockOwner; std::map<uint64_t,int> lockIds; std::vector<std::vector<int>> locksets; std::map<std::vector<int>,int> locksetIdx;
  bool dead=false; int assertFails=0; double deadline=0; bool leakCheck=true; std::string violOpen; int nprocs=1; int mpiMode=0;
  std::string curWhere;
  struct MpiState* mpi=nullptr;
  std::unique_ptr<z3::solver> linSolver; long live=0; int randCnt=0; int randMode=0;
  std::vector<std::string> notes;

  // ---------- setup
  bool load(const std::string&path);
  void decode(DFunc*f);
  Opd opd(const Value*v,std::unordered_map<const Value*,int>&sl);
  Val constant(const Constant*c,int&g);
  MT mty(Type*t);
  void registerExt();
  DFunc* getF(const Function*F){ return fmap[F]; }

  // ---------- memory
  uint64_t addrOf(uint32_t idx){ return ((uint64_t)idx+1)<<32; }
  Obj* newObj(uint64_t size,uint8_t kind,bool zero=false){
    if(size>(256u<<20)) throw Unsup{"allocation of "+std::to_string(size)+" bytes exceeds the model"};
    Obj*o; if(poolUsed<pool.size()) o=pool[poolUsed].get(); else { pool.emplace_back(new Obj); o=pool.back().get(); } poolUsed++;
    o->size=size; o->kind=kind; o->alive=true; o->ro=false; o->data.assign(size,0); o->tag.assign(size,zero?1:0); o->cells.clear(); o->sh.clear(); o->site=nullptr; o->owner=-1; o->seq=objSeq++;
    return o;
  }
  uint64_t alloc(uint64_t size,uint8_t kind,bool zero=false){ Obj*o=newObj(size,kind,zero); objs.push_back(o); return addrOf(objs.size()-1); }
  Obj* globalObj(int g);
  Obj* find(uint64_t a,uint32_t&off,uint32_t*pi=nullptr){
    uint64_t i=a>>32; off=(uint32_t)a; if(i==0) return nullptr; i--; if(pi) *pi=i;
    if(i<(uint64_t)G) return globalObj(i);
    if(i>=objs.size()) return nullptr;
    return objs[i];
  }
  [[noreturn]] void viol(const std::string&kind,const std::string&msg,bool withModel=true);
  void violSoft(const std::string&kind,const std::string&msg,z3::expr*extra=nullptr,std::vector<int>*vars=nullptr);
  Obj* access(uint64_t a,uint64_t size,bool wr,uint32_t&off);
  void race(Obj*o,uint32_t off,uint32_t size,bool wr);
  Val load(uint64_t a,const MT&t);
  void store(uint64_t a,const MT&t,Val v);
  void killCells(Obj*o,uint32_t off,uint32_t size);
  void copyMem(uint64_t d,uint64_t s,uint64_t n);
  void setMem(uint64_t d,int c,uint64_t n);
  std::string cstr(uint64_t a);
  void freeHeap(uint64_t a,const char*what);

  // ---------- values
  const Poly* toPoly(const Val&v){ if(v.k==V_POLY) return v.p; if(v.k==V_FLT) return pc.constant(Q(v.d)); throw Unsup{"value is not a float"}; }
  Val fromPoly(const Poly*p){ if(p->t.empty()) return VF(0.0); if(p->isConst()){ double d=p->t[0].second.get_d(); if(Q(d)==p->t[0].second) return VF(d); } return VP(p); }
  Val farith(int op,const Val&a,const Val&b);
  Val fdivv(const Val&a,const Val&b);
  Val fabsv(const Val&a); Val fsqrtv(const Val&a); Val fneg(const Val&a);
  bool fcmp(int pred,const Val&a,const Val&b);
  z3::expr zsym(const Val&v){ if(v.k==V_SYM) return symx[v.s]; return zc->bv_val((uint64_t)v.i,v.w); }
  Val newSym(const z3::expr&e,int w,std::set<int> vars){ z3::expr s=e.simplify(); uint64_t c; if(s.is_numeral_u64(c)) return VI(c,w); symx.push_back(s); symv.push_back(vars); return VS(symx.size()-1,w); }
  std::set<int> svars(const Val&a){ if(a.k==V_SYM) return symv[a.s]; return {}; }
  Val iarith(const DI&d,const Val&a,const Val&b);
  uint64_t conc(Val v,int64_t hintLo=INT64_MIN,int64_t hintHi=INT64_MAX);
  bool branchExpr(const z3::expr&e,const std::set<int>&vars);
  // ---------- solver
  z3::expr zpoly(const Poly*p); z3::expr zatom(int a); z3::expr zq(const Q&q){ return zc->real_val(q.get_str().c_str()); }
  z3::expr signExpr(const Poly*p,int mask);
  bool nonlin(const Poly*p){ for(auto&x:p->t){ auto&m=pc.monos[x.first]; int deg=0; for(auto&ae:m){ deg+=std::abs(ae.second); if(ae.second<0) return true; Atom&A=pc.atoms[ae.first]; if(A.k==Atom::SQRT||A.k==Atom::DEF) return true; if(A.arg&&nonlin(A.arg)) return true; } if(deg>1) return true; } return false; }
  std::vector<int> pvars(const Poly*p){ std::set<int> s; pc.closure(p,s); return std::vector<int>(s.begin(),s.end()); }
  void sideCons(const Poly*p,std::map<int,z3::expr>&out);
  std::vector<std::pair<z3::expr,int>> sides; // collected during zpoly
  std::map<int,size_t> sideOf; 
  // witnesses: concrete points that satisfy the path condition decide feasibility without the solver
  std::vector<Wit> pool_; std::vector<std::pair<const Poly*,int>> wcons; uint64_t rngS=1; long witHits=0; bool witOff=false;
  uint64_t rnd(){ rngS=rngS*6364136223846793005ULL+1442695040888963407ULL; return rngS>>33; }
  Q randQ(int sgn); const Q& witVal(Wit&w,int vid,int sgn); bool evalQ(const Poly*p,Wit&w,Q&out); int witSign(const Poly*p,Wit&w); bool witOk(Wit&w);
  void witFilter(const Poly*d,int mask); bool witFind(const Poly*d,int mask,Wit*out); const Poly*curD=nullptr; int curMask=0; Wit curWit; bool curFound=false; bool witSearch(const Poly*d,int mask,Wit&out,int tries); bool witRepair(const Poly*d,int mask,Wit&out); void witAddModel(std::map<int,Q>&m,const Poly*d,int mask);
  std::unordered_map<std::string,std::map<std::string,std::string>> qmodels; std::string lastKey;
  z3::expr zpolyL(const Poly*p,std::map<std::string,z3::expr>&sd); z3::expr linExpr(const Poly*p,int m);
  int feas(const Poly*d,int mask,Wit*w,bool&have);
  int checkSlice(const z3::expr&e,const std::vector<int>&vars,bool nl,const z3::expr*lin=nullptr,bool wantModel=false);
  bool feasible(const Poly*d,int mask){ Wit w; bool h; return feas(d,mask,&w,h)!=0; }
  void addSign(const Poly*d,int mask,int depth=0);
  bool branchSign(const Poly*d,int T);
  std::string modelInputs(z3::expr*extra,bool&ok,std::map<int,double>*mv=nullptr,std::map<int,int64_t>*ms=nullptr);
  double evalD(const Poly*p,std::map<int,double>&mv);
  int choice(int n);
  // ---------- asserts
  void decideNeg(const z3::expr&neg,const std::vector<int>&vars,bool nl,const std::string&msg,const Poly*d=nullptr,int mask=0,const z3::expr*lin=nullptr);
  void nfProved(const Poly*g,const Poly*w,const std::string&msg,bool count=true);
  std::string pendingDetail,lastLog,leakWhere; const Poly*pendGot=nullptr,*pendWant=nullptr; std::map<int,int> randAtom; int pushThreads=0; unsigned nlTimeout=1500;
  void flushBatch();
  // ---------- run
  void resetPath(); void runPath(const Prefix&p); void loop(); void runThread(Thread*t); Thread* newThread(Proc*p);
  void push(Thread&t,DFunc*f,const Val*args,int n,int retSlot);
  void popFrame(Thread&t);
  int lockset(std::vector<int> l){ std::sort(l.begin(),l.end()); auto it=locksetIdx.find(l); if(it!=locksetIdx.end()) return it->second; int id=locksets.size(); locksets.push_back(l); locksetIdx[l]=id; return id; }
  bool disjoint(int a,int b){ for(int x:locksets[a]) for(int y:locksets[b]) if(x==y) return false; return true; }
  int acquire(Thread&t,uint64_t lk); void release(Thread&t,uint64_t lk);
  std::string loc(const Instruction*I){ std::string s; if(!I) return "?"; if(auto&d=I->getDebugLoc()){ DILocation*L=d.get(); s=L->getFilename().str(); size_t p=s.rfind("/src/"); if(p!=std::string::npos) s=s.substr(p+1); s+=":"+std::to_string(L->getLine()); } return s; }
  std::vector<std::string> backtrace(Thread*t){ std::vector<std::string> v; if(!t) return v; for(int i=(int)t->fr.size()-1;i>=0;i--){ Frame&f=t->fr[i]; const Instruction*I=nullptr; int pcx=f.pc; if(pcx>0&&i!=(int)t->fr.size()-1) pcx--; if(f.bb<(int)f.f->bbs.size()&&pcx<(int)f.f->bbs[f.bb].ins.size()) I=f.f->bbs[f.bb].ins[pcx].I; v.push_back(f.f->name+"@"+loc(I)); } return v; }
  void startTeam(Thread&t,DFunc*f,std::vector<Val> args);
};
#include "exec.hpp"
#include "ext.hpp"
#include "mpi.hpp"
#include "main.hpp"
