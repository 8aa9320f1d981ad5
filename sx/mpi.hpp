// MPI model: ranks are processes of the engine (own globals, own heap), messages are matched in MPI order.
// job parameter mpimode: 0 sends complete at once and receives are delivered as soon as they match; 1 sends wait for the matching receive and
// data arrives at the receiver's completing call; 2 a path choice per message.
struct MpiDt{ std::vector<std::pair<int64_t,std::pair<int64_t,int>>> blk; bool committed=false, freed=false; }; // displacement, count, basic type
struct MpiComm{ std::vector<int> ranks; std::vector<int> dims, per; };
typedef std::vector<std::pair<uint64_t,uint64_t>> Pieces; // address, bytes
struct MpiMsg{ int comm,src,dst,tag; Pieces pc; int tid; uint64_t bytes; bool snap=false; uint64_t data=0; bool rdv=false, late=false; int rcv=-1; bool delivered=false; };
struct MpiRcv{ int comm,src,dst,tag; Pieces pc; int tid; uint64_t cap; int msg=-1; bool done=false; };
struct MpiReq{ bool send; int idx; bool active=true; };
struct MpiColl{ int comm; std::string kind; int root=-1; std::map<int,std::vector<int64_t>> args; std::map<int,int> tid; std::map<int,int64_t> result; bool done=false; };
struct MpiState{ std::vector<MpiComm> comms; std::vector<MpiDt> dts; std::vector<MpiMsg> msgs; std::vector<MpiRcv> rcvs; std::vector<MpiReq> reqs; std::map<std::pair<int,int>,int> collSeq; std::map<std::pair<int,int>,int> collIdx; std::vector<MpiColl> colls;
  std::map<int,int> live; /* communicators and datatypes a rank holds */ std::map<int,std::pair<int,int>> pend; /* thread -> (kind, index): 1 send, 2 receive, 3 request, 4 collective */ };
void mpiReset(Engine&E){ delete E.mpi; E.mpi=new MpiState; MpiComm w; for(int i=0;i<E.nprocs;i++) w.ranks.push_back(i); E.mpi->comms.push_back(w); MpiComm s; E.mpi->comms.push_back(s); }
static const int mpiBasic[9]={0,1,1,4,8,4,8,8,16};
static int64_t dtSize(Engine&E,int dt){ if(dt>=1&&dt<=8) return mpiBasic[dt]; if(dt<100||dt-100>=(int)E.mpi->dts.size()) E.viol("mpi-misuse","invalid MPI datatype"); int64_t s=0; for(auto&b:E.mpi->dts[dt-100].blk) s+=b.second.first*mpiBasic[b.second.second]; return s; }
static Pieces pieces(Engine&E,uint64_t buf,int64_t cnt,int dt){ Pieces p; if(cnt<0) E.viol("mpi-misuse","negative count in an MPI call"); 
  if(dt>=1&&dt<=8){ if(cnt) p.push_back({buf,(uint64_t)cnt*mpiBasic[dt]}); return p; }
  dtSize(E,dt); MpiDt&D=E.mpi->dts[dt-100]; if(!D.committed||D.freed) E.viol("mpi-misuse","MPI datatype used before it is committed or after it is freed"); if(cnt>1) throw Unsup{"several elements of a derived MPI type"}; if(cnt==1) for(auto&b:D.blk) if(b.second.first) p.push_back({buf+(uint64_t)b.first,(uint64_t)b.second.first*mpiBasic[b.second.second]}); return p; }
static uint64_t total(const Pieces&p){ uint64_t s=0; for(auto&x:p) s+=x.second; return s; }
struct AsThread{ Engine&E; Thread*o; AsThread(Engine&e,int tid):E(e),o(e.cur){ E.cur=E.threads[tid].get(); } ~AsThread(){ E.cur=o; } };
static uint64_t snapshot(Engine&E,int tid,const Pieces&p){ AsThread g(E,tid); uint64_t n=total(p); if(!n) return 0; uint64_t d=E.alloc(n,OK_FILE,false); uint64_t o=0; for(auto&x:p){ E.copyMem(d+o,x.first,x.second); o+=x.second; } return d; }
static void deliver(Engine&E,int tid,const Pieces&p,uint64_t d,uint64_t n){ AsThread g(E,tid); uint64_t o=0; for(auto&x:p){ if(o>=n) break; uint64_t k=std::min<uint64_t>(x.second,n-o); E.copyMem(x.first,d+o,k); o+=k; } }
static MpiComm& comm(Engine&E,int c){ if(c<0||c>=(int)E.mpi->comms.size()) E.viol("mpi-misuse","invalid communicator"); return E.mpi->comms[c]; }
static int rankIn(Engine&E,Thread&t,int c){ if(c==1) return 0; auto&C=comm(E,c); for(size_t i=0;i<C.ranks.size();i++) if(C.ranks[i]==t.proc->rank) return i; E.viol("mpi-misuse","communicator used by a rank outside it"); }
static void snapMsg(Engine&E,MpiMsg&m){ if(!m.snap){ m.data=snapshot(E,m.tid,m.pc); m.snap=true; } }
static void transfer(Engine&E,MpiRcv&r){ MpiMsg&m=E.mpi->msgs[r.msg]; if(m.delivered) return; snapMsg(E,m); if(m.bytes>r.cap) E.viol("mpi-truncated","a message of "+std::to_string(m.bytes)+" bytes arrives in a receive buffer of "+std::to_string(r.cap)); deliver(E,r.tid,r.pc,m.data,m.bytes); m.delivered=true; r.done=true; }
static void matchPair(Engine&E,int mi,int ri){ MpiMsg&m=E.mpi->msgs[mi]; MpiRcv&r=E.mpi->rcvs[ri]; m.rcv=ri; r.msg=mi; if(!m.late) transfer(E,r); }
static int postSend(Engine&E,Thread&t,uint64_t buf,int cnt,int dt,int dst,int tag,int c,bool blocking){
  auto&C=comm(E,c); MpiMsg m; m.comm=c; m.src=rankIn(E,t,c); m.dst=dst; m.tag=tag; m.tid=t.id; if(dst<0||dst>=(int)C.ranks.size()) E.viol("mpi-misuse","message sent to a rank that does not exist"); m.pc=pieces(E,buf,cnt,dt); m.bytes=total(m.pc);
  bool r=E.mpiMode==1; if(E.mpiMode==2) r=E.choice(2)==1; m.rdv=m.late=r; 
  { for(auto&p:m.pc){ uint32_t off; E.access(p.first,p.second,false,off); } }
  if(blocking||!r) snapMsg(E,m); E.mpi->msgs.push_back(m); int mi=E.mpi->msgs.size()-1;
  for(size_t i=0;i<E.mpi->rcvs.size();i++){ auto&q=E.mpi->rcvs[i]; if(q.msg<0&&q.comm==c&&q.dst==dst&&(q.src==m.src||q.src==-1)&&(q.tag==tag||q.tag==-1)){ matchPair(E,mi,i); break; } }
  return mi; }
static int postRecv(Engine&E,Thread&t,uint64_t buf,int cnt,int dt,int src,int tag,int c){
  auto&C=comm(E,c); MpiRcv r; r.comm=c; r.dst=rankIn(E,t,c); r.src=src; r.tag=tag; r.tid=t.id; if(src==-1) throw Unsup{"MPI_ANY_SOURCE"}; if(src<0||src>=(int)C.ranks.size()) E.viol("mpi-misuse","message expected from a rank that does not exist"); r.pc=pieces(E,buf,cnt,dt); r.cap=total(r.pc);
  for(auto&p:r.pc){ uint32_t off; E.access(p.first,p.second,true,off); }
  E.mpi->rcvs.push_back(r); int ri=E.mpi->rcvs.size()-1;
  for(size_t i=0;i<E.mpi->msgs.size();i++){ auto&m=E.mpi->msgs[i]; if(m.rcv<0&&m.comm==c&&m.dst==r.dst&&m.src==src&&(m.tag==tag||tag==-1)){ matchPair(E,i,ri); break; } }
  return ri; }
static bool sendDone(Engine&E,int i){ MpiMsg&m=E.mpi->msgs[i]; return !m.rdv||m.rcv>=0; }
static bool ready(Engine&E,int kind,int i){ switch(kind){ case 1: return sendDone(E,i); case 2: return E.mpi->rcvs[i].msg>=0; case 3: { auto&q=E.mpi->reqs[i]; return q.send? sendDone(E,q.idx): E.mpi->rcvs[q.idx].msg>=0; } case 4: return E.mpi->colls[i].done; } return true; }
void mpiPoll(Engine&E){ for(auto&t:E.threads) if(t->st==Thread::MPIW){ auto it=E.mpi->pend.find(t->id); if(it==E.mpi->pend.end()||ready(E,it->second.first,it->second.second)) t->st=Thread::RUN; } }
static int block(Engine&E,Thread&t,int kind,int i,const char*what){ E.mpi->pend[t.id]={kind,i}; t.st=Thread::MPIW; t.what=what; return 1; }
static void status(Engine&E,uint64_t s,MpiRcv&r){ if(!s) return; MT m=mtInt(4); E.store(s,m,VI((uint64_t)r.src,32)); E.store(s+4,m,VI((uint64_t)r.tag,32)); E.store(s+8,m,VI(0,32)); E.store(s+12,m,VI(E.mpi->msgs[r.msg].bytes,32)); }
static int doSend(Engine&E,Thread&t,Val*a,Val&ret,bool sync){ auto it=E.mpi->pend.find(t.id); int i; if(it==E.mpi->pend.end()) { i=postSend(E,t,i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4]),i32(E,a[5]),true); if(sync) E.mpi->msgs[i].rdv=true; } else i=it->second.second;
  if(!ready(E,1,i)) return block(E,t,1,i,"MPI_Send"); E.mpi->pend.erase(t.id); t.what.clear(); ret=VI(0,32); return 0; }
static int waitReq(Engine&E,Thread&t,uint64_t rp,uint64_t st){ MT m=mtInt(4); Val v=E.load(rp,m); if(v.k==V_UNDEF) E.viol("uninitialised","wait for an MPI request that was never started"); int h=(int)(int32_t)E.conc(v); if(h==-1) return 0;
  if(h<0||h>=(int)E.mpi->reqs.size()||!E.mpi->reqs[h].active) E.viol("mpi-misuse","wait for an MPI request that was never started or is already completed");
  auto&q=E.mpi->reqs[h]; if(q.send) snapMsg(E,E.mpi->msgs[q.idx]); if(!ready(E,3,h)) return block(E,t,3,h,"MPI_Wait");
  E.mpi->pend.erase(t.id); if(!q.send){ auto&r=E.mpi->rcvs[q.idx]; transfer(E,r); status(E,st,r); } q.active=false; E.store(rp,m,VI((uint64_t)-1,32)); t.what.clear(); return 0; }
static int newReq(Engine&E,bool send,int idx){ MpiReq q; q.send=send; q.idx=idx; E.mpi->reqs.push_back(q); return E.mpi->reqs.size()-1; }
static MT dtMT(int dt){ MT m; if(dt==5){ m.k=MT::F32; m.size=4; m.bits=32; } else if(dt==6){ m.k=MT::F64; m.size=8; m.bits=64; } else if(dt==3){ m=mtInt(4); } else throw Unsup{"MPI reduction type"}; return m; }
static Val redOp(Engine&E,int op,int dt,const Val&x,const Val&y){ if(dt==3){ if(op==1&&x.k==V_INT&&y.k==V_INT) return VI((x.i+y.i)&0xffffffff,32); int p=(int)(int32_t)E.conc(x),q=(int)(int32_t)E.conc(y); int r= op==1?p+q:op==2?std::min(p,q):std::max(p,q); return VI((uint64_t)(uint32_t)r,32); }
  if(x.k==V_UNDEF||y.k==V_UNDEF) E.viol("uninitialised","an MPI reduction combines an uninitialised value"); if(op==1) return E.farith(OP_FADD,x,y); bool lt=E.fcmp(FCmpInst::FCMP_OLT,x,y); return (op==2)==lt? x:y; }
static const uint64_t INPLACE=(uint64_t)-1;
// one collective call: args are the rank's own arguments; the last rank to arrive performs the data movement
static int coll(Engine&E,Thread&t,int c,const char*kind,int root,std::vector<int64_t> args,int64_t*res=nullptr){
  MpiState&S=*E.mpi; if(c==1) throw Unsup{"collective on MPI_COMM_SELF"}; rankIn(E,t,c); int wr=t.proc->rank; auto it=S.pend.find(t.id); int ci;
  if(it==S.pend.end()){
    int seq=S.collSeq[{c,wr}]++; auto k=std::make_pair(c,seq); auto f=S.collIdx.find(k); if(f==S.collIdx.end()){ S.colls.push_back(MpiColl()); ci=S.colls.size()-1; S.collIdx[k]=ci; S.colls[ci].comm=c; S.colls[ci].kind=kind; S.colls[ci].root=root; } else ci=f->second;
    MpiColl&K=S.colls[ci]; if(K.kind!=kind||K.root!=root) E.viol("mpi-collective","ranks disagree on the collective operation: "+K.kind+" and "+kind); K.args[wr]=args; K.tid[wr]=t.id;
    if(K.args.size()==S.comms[c].ranks.size()){ std::vector<int> R=S.comms[c].ranks; std::string kd=kind; auto A=[&](int r,int i)->int64_t{ return K.args[R[r]][i]; }; int n=R.size();
      if(kd=="MPI_Bcast"){ uint64_t d=0,nb=0; { AsThread g(E,K.tid[R[root]]); Pieces p=pieces(E,A(root,0),A(root,1),A(root,2)); nb=total(p); d=snapshot(E,K.tid[R[root]],p); } for(int r=0;r<n;r++) if(r!=root){ Pieces p; { AsThread g(E,K.tid[R[r]]); p=pieces(E,A(r,0),A(r,1),A(r,2)); } if(total(p)!=nb) E.viol("mpi-truncated","broadcast of "+std::to_string(nb)+" bytes received as "+std::to_string(total(p))); deliver(E,K.tid[R[r]],p,d,nb); } }
      else if(kd=="MPI_Allreduce"||kd=="MPI_Reduce"){ int cnt=A(0,2),dt=A(0,3),op=A(0,4); for(int r=0;r<n;r++) if(A(r,2)!=cnt||A(r,3)!=dt||A(r,4)!=op) E.viol("mpi-collective","ranks disagree on the size or operation of a reduction"); 
        int nel=cnt, bt=dt; if(dt==7||dt==8){ if(op!=1) throw Unsup{"complex min/max"}; nel*=2; bt=dt-2; } MT m=dtMT(bt); for(int i=0;i<nel;i++){ Val acc; for(int r=0;r<n;r++){ AsThread g(E,K.tid[R[r]]); uint64_t sb=A(r,0); if(sb==INPLACE) sb=A(r,1); Val v=E.load(sb+(uint64_t)i*m.size,m); acc= r? redOp(E,op,bt,acc,v):v; } K.result[i]=0; 
          for(int r=0;r<n;r++) if(kd=="MPI_Allreduce"||r==root){ AsThread g(E,K.tid[R[r]]); E.store((uint64_t)A(r,1)+(uint64_t)i*m.size,m,acc); } } }
      else if(kd=="MPI_Allgather"||kd=="MPI_Allgatherv"){ /* args: sendbuf, sendcount, sendtype, recvbuf, recvtype, then per rank (count, displacement) */
        for(int r=0;r<n;r++){ int64_t es=0; { AsThread g(E,K.tid[R[r]]); es=dtSize(E,A(r,4)); } uint64_t cb=A(r,5+2*r),db=A(r,6+2*r); Pieces p; if((uint64_t)A(r,0)==INPLACE){ if(cb) p.push_back({(uint64_t)A(r,3)+db*es,cb*es}); } else { AsThread g(E,K.tid[R[r]]); p=pieces(E,A(r,0),A(r,1),A(r,2)); } uint64_t nb=total(p); uint64_t d=snapshot(E,K.tid[R[r]],p);
          for(int q=0;q<n;q++){ if(q==r&&(uint64_t)A(r,0)==INPLACE) continue; int64_t eq; { AsThread g(E,K.tid[R[q]]); eq=dtSize(E,A(q,4)); } uint64_t c2=(uint64_t)A(q,5+2*r)*eq; if(c2!=nb) E.viol("mpi-truncated","a gather contribution of "+std::to_string(nb)+" bytes is received as "+std::to_string(c2)); Pieces w; if(c2) w.push_back({(uint64_t)A(q,3)+(uint64_t)A(q,6+2*r)*eq,c2}); deliver(E,K.tid[R[q]],w,d,nb); } } }
      else if(kd=="MPI_Comm_split"){ std::map<int64_t,std::vector<std::pair<int64_t,int>>> grp; for(int r=0;r<n;r++) if(A(r,0)>=0) grp[A(r,0)].push_back({A(r,1),r}); for(int r=0;r<n;r++) S.colls[ci].result[R[r]]=-1; for(auto&g:grp){ std::stable_sort(g.second.begin(),g.second.end()); MpiComm N; for(auto&x:g.second) N.ranks.push_back(R[x.second]); S.comms.push_back(N); for(auto&x:g.second) K.result[R[x.second]]=S.comms.size()-1; } }
      else if(kd=="MPI_Cart_create"){ MpiComm N; int p=1; for(size_t i=0;i<K.args[R[0]].size();i+=2){ N.dims.push_back(A(0,i)); N.per.push_back(A(0,i+1)); p*=A(0,i); } for(int r=1;r<n;r++) if(K.args[R[r]]!=K.args[R[0]]) E.viol("mpi-collective","ranks disagree on the process grid"); if(p>n||p<1) E.viol("mpi-misuse","process grid larger than the communicator"); N.ranks.assign(R.begin(),R.begin()+p); S.comms.push_back(N); for(int r=0;r<n;r++) K.result[R[r]]= r<p? (int64_t)S.comms.size()-1:-1; }
      else if(kd=="MPI_Comm_dup"){ MpiComm N=S.comms[c]; S.comms.push_back(N); for(int r=0;r<n;r++) K.result[R[r]]=S.comms.size()-1; }
      S.colls[ci].done=true; }
  } else ci=it->second.second;
  if(!S.colls[ci].done) return block(E,t,4,ci,kind); S.pend.erase(t.id); t.what.clear(); if(res) *res=S.colls[ci].result[wr]; return 0; }
#define HM(nm) E0.ext[nm]=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int
void registerMpi(Engine&E0){
  HM("MPI_Init"){ ret=VI(0,32); return 0; }; HM("MPI_Finalize"){ ret=VI(0,32); return 0; }; HM("MPI_Type_commit"){ int dt=i32(E,E.load(i64(E,a[0]),mtInt(4))); dtSize(E,dt); if(dt>=100) E.mpi->dts[dt-100].committed=true; ret=VI(0,32); return 0; };
  HM("MPI_Type_free"){ uint64_t p=i64(E,a[0]); int dt=i32(E,E.load(p,mtInt(4))); dtSize(E,dt); if(dt<100||E.mpi->dts[dt-100].freed) E.viol("mpi-misuse","MPI datatype freed twice"); E.mpi->dts[dt-100].freed=true; E.mpi->live[t.proc->rank]--; E.store(p,mtInt(4),VI((uint64_t)-1,32)); ret=VI(0,32); return 0; };
  HM("MPI_Get_address"){ E.store(i64(E,a[1]),mtInt(8),VI(i64(E,a[0]),64)); ret=VI(0,32); return 0; };
  HM("MPI_Type_create_struct"){ int k=i32(E,a[0]); uint64_t l=i64(E,a[1]),ds=i64(E,a[2]),ty=i64(E,a[3]); MpiDt D; for(int i=0;i<k;i++){ int bt=i32(E,E.load(ty+4*i,mtInt(4))); if(bt<1||bt>8) throw Unsup{"nested MPI types"}; int bl=i32(E,E.load(l+4*i,mtInt(4))); if(bl<0) E.viol("mpi-misuse","negative block length in an MPI type"); D.blk.push_back({(int64_t)i64(E,E.load(ds+8*i,mtInt(8))),{bl,bt}}); } E.mpi->dts.push_back(D); E.mpi->live[t.proc->rank]++; E.store(i64(E,a[4]),mtInt(4),VI(99+E.mpi->dts.size(),32)); ret=VI(0,32); return 0; };
  HM("MPI_Comm_rank"){ E.store(i64(E,a[1]),mtInt(4),VI(rankIn(E,t,i32(E,a[0])),32)); ret=VI(0,32); return 0; };
  HM("MPI_Comm_size"){ int c=i32(E,a[0]); E.store(i64(E,a[1]),mtInt(4),VI(c==1?1:comm(E,c).ranks.size(),32)); ret=VI(0,32); return 0; };
  HM("MPI_Comm_f2c"){ ret=a[0]; return 0; }; HM("MPI_Comm_c2f"){ ret=a[0]; return 0; }; HM("sx_mpi_live"){ ret=VI((uint64_t)E.mpi->live[t.proc->rank],32); return 0; }; HM("MPI_Comm_free"){ int c=i32(E,E.load(i64(E,a[0]),mtInt(4))); if(c<2) E.viol("mpi-misuse","communicator freed that cannot be"); comm(E,c); E.mpi->live[t.proc->rank]--; E.store(i64(E,a[0]),mtInt(4),VI((uint64_t)-1,32)); ret=VI(0,32); return 0; };
  HM("MPI_Comm_dup"){ int64_t r; int b=coll(E,t,i32(E,a[0]),"MPI_Comm_dup",-1,{},&r); if(b) return b; if((int64_t)r>=0) E.mpi->live[t.proc->rank]++; E.store(i64(E,a[1]),mtInt(4),VI((uint64_t)r&0xffffffff,32)); ret=VI(0,32); return 0; };
  HM("MPI_Comm_split"){ int64_t r; int b=coll(E,t,i32(E,a[0]),"MPI_Comm_split",-1,{i32(E,a[1]),i32(E,a[2])},&r); if(b) return b; if((int64_t)r>=0) E.mpi->live[t.proc->rank]++; E.store(i64(E,a[3]),mtInt(4),VI((uint64_t)r&0xffffffff,32)); ret=VI(0,32); return 0; };
  HM("MPI_Cart_create"){ int k=i32(E,a[1]); std::vector<int64_t> v; for(int i=0;i<k;i++){ v.push_back(i32(E,E.load(i64(E,a[2])+4*i,mtInt(4)))); v.push_back(i32(E,E.load(i64(E,a[3])+4*i,mtInt(4)))); } int64_t r; int b=coll(E,t,i32(E,a[0]),"MPI_Cart_create",-1,v,&r); if(b) return b; if((int64_t)r>=0) E.mpi->live[t.proc->rank]++; E.store(i64(E,a[5]),mtInt(4),VI((uint64_t)r&0xffffffff,32)); ret=VI(0,32); return 0; };
  HM("MPI_Cart_coords"){ auto&C=comm(E,i32(E,a[0])); int r=i32(E,a[1]),k=i32(E,a[2]); if(C.dims.empty()||r<0||r>=(int)C.ranks.size()) E.viol("mpi-misuse","coordinates of a rank outside the process grid"); int m=C.dims.size(); std::vector<int> co(m); for(int i=m-1;i>=0;i--){ co[i]=r%C.dims[i]; r/=C.dims[i]; } for(int i=0;i<k&&i<m;i++) E.store(i64(E,a[3])+4*i,mtInt(4),VI(co[i],32)); ret=VI(0,32); return 0; };
  HM("MPI_Cart_rank"){ auto&C=comm(E,i32(E,a[0])); int r=0; if(C.dims.empty()) E.viol("mpi-misuse","communicator is not a process grid"); for(size_t i=0;i<C.dims.size();i++){ int x=i32(E,E.load(i64(E,a[1])+4*i,mtInt(4))); x=((x%C.dims[i])+C.dims[i])%C.dims[i]; r=r*C.dims[i]+x; } E.store(i64(E,a[2]),mtInt(4),VI(r,32)); ret=VI(0,32); return 0; };
  HM("MPI_Cart_shift"){ int c=i32(E,a[0]); auto&C=comm(E,c); int dir=i32(E,a[1]),s=i32(E,a[2]); int m=C.dims.size(); if(dir<0||dir>=m) E.viol("mpi-misuse","shift along a direction the process grid does not have"); int r=rankIn(E,t,c); std::vector<int> co(m); int x=r; for(int i=m-1;i>=0;i--){ co[i]=x%C.dims[i]; x/=C.dims[i]; } auto at=[&](int o)->int{ std::vector<int> v=co; int D=C.dims[dir]; int y=v[dir]+o; if(y<0||y>=D){ if(!C.per[dir]) return -2; y=((y%D)+D)%D; } v[dir]=y; int q=0; for(int i=0;i<m;i++) q=q*C.dims[i]+v[i]; return q; }; E.store(i64(E,a[3]),mtInt(4),VI((uint64_t)(uint32_t)at(-s),32)); E.store(i64(E,a[4]),mtInt(4),VI((uint64_t)(uint32_t)at(s),32)); ret=VI(0,32); return 0; };
  HM("MPI_Send"){ return doSend(E,t,a,ret,false); }; HM("MPI_Ssend"){ return doSend(E,t,a,ret,true); };
  HM("MPI_Recv"){ auto it=E.mpi->pend.find(t.id); int i= it==E.mpi->pend.end()? postRecv(E,t,i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4]),i32(E,a[5])):it->second.second; if(!ready(E,2,i)) return block(E,t,2,i,"MPI_Recv"); E.mpi->pend.erase(t.id); t.what.clear(); transfer(E,E.mpi->rcvs[i]); status(E,i64(E,a[6]),E.mpi->rcvs[i]); ret=VI(0,32); return 0; };
  HM("MPI_Isend"){ int i=postSend(E,t,i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4]),i32(E,a[5]),false); E.store(i64(E,a[6]),mtInt(4),VI(newReq(E,true,i),32)); ret=VI(0,32); return 0; };
  HM("MPI_Irecv"){ int i=postRecv(E,t,i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4]),i32(E,a[5])); E.store(i64(E,a[6]),mtInt(4),VI(newReq(E,false,i),32)); ret=VI(0,32); return 0; };
  HM("MPI_Wait"){ int b=waitReq(E,t,i64(E,a[0]),i64(E,a[1])); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Waitall"){ int k=i32(E,a[0]); for(int i=0;i<k;i++){ int b=waitReq(E,t,i64(E,a[1])+4*i,i64(E,a[2])? i64(E,a[2])+16*i:0); if(b) return b; } ret=VI(0,32); return 0; };
  HM("MPI_Get_count"){ int s=i32(E,E.load(i64(E,a[0])+12,mtInt(4))); E.store(i64(E,a[2]),mtInt(4),VI(s/dtSize(E,i32(E,a[1])),32)); ret=VI(0,32); return 0; };
  HM("MPI_Barrier"){ int b=coll(E,t,i32(E,a[0]),"MPI_Barrier",-1,{}); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Bcast"){ int b=coll(E,t,i32(E,a[4]),"MPI_Bcast",i32(E,a[3]),{(int64_t)i64(E,a[0]),i32(E,a[1]),i32(E,a[2])}); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Allreduce"){ int b=coll(E,t,i32(E,a[5]),"MPI_Allreduce",-1,{(int64_t)i64(E,a[0]),(int64_t)i64(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4])}); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Reduce"){ int b=coll(E,t,i32(E,a[6]),"MPI_Reduce",i32(E,a[5]),{(int64_t)i64(E,a[0]),(int64_t)i64(E,a[1]),i32(E,a[2]),i32(E,a[3]),i32(E,a[4])}); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Allgather"){ int c=i32(E,a[6]); std::vector<int64_t> v{(int64_t)i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),(int64_t)i64(E,a[3]),i32(E,a[5])}; for(size_t r=0;r<comm(E,c).ranks.size();r++){ v.push_back(i32(E,a[4])); v.push_back((int64_t)r*i32(E,a[4])); } int b=coll(E,t,c,"MPI_Allgather",-1,v); if(b) return b; ret=VI(0,32); return 0; };
  HM("MPI_Allgatherv"){ int c=i32(E,a[7]); std::vector<int64_t> v{(int64_t)i64(E,a[0]),i32(E,a[1]),i32(E,a[2]),(int64_t)i64(E,a[3]),i32(E,a[6])}; for(size_t r=0;r<comm(E,c).ranks.size();r++){ v.push_back(i32(E,E.load(i64(E,a[4])+4*r,mtInt(4)))); v.push_back(i32(E,E.load(i64(E,a[5])+4*r,mtInt(4)))); } int b=coll(E,t,c,"MPI_Allgatherv",-1,v); if(b) return b; ret=VI(0,32); return 0; };
}
