// ---- driver: a parent schedules (job, path prefix) tasks over forked workers; each worker explores depth-first for a time slice
struct Buf { std::string s; size_t p=0; void i(int64_t v){ s.append((char*)&v,8); } void d(double v){ s.append((char*)&v,8); } void t(const std::string&x){ i(x.size()); s+=x; } int64_t ri(){ int64_t v; memcpy(&v,&s[p],8); p+=8; return v; } double rd(){ double v; memcpy(&v,&s[p],8); p+=8; return v; } std::string rt(){ size_t n=ri(); std::string r=s.substr(p,n); p+=n; return r; }
  void pre(const Prefix&x){ i(x.size()); for(auto&d:x){ s+=d.k; if(d.k=='C'||d.k=='N'||d.k=='E'||d.k=='e') i(d.v); } i(x.wit.size()); for(auto&w:x.wit){ i(w.size()); for(auto&q:w) t(q.get_str()); } } Prefix rpre(){ Prefix x; size_t n=ri(); for(size_t q=0;q<n;q++){ Dec d; d.k=s[p++]; d.v=0; if(d.k=='C'||d.k=='N'||d.k=='E'||d.k=='e') d.v=ri(); x.push_back(d);} size_t nw=ri(); x.wit.resize(nw); for(auto&w:x.wit){ size_t k=ri(); for(size_t q=0;q<k;q++) w.push_back(Q(rt())); } return x; } };
static bool wrAll(int fd,const void*p,size_t n){ const char*c=(const char*)p; while(n){ ssize_t k=write(fd,c,n); if(k<=0){ if(k<0&&errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
static bool rdAll(int fd,void*p,size_t n){ char*c=(char*)p; while(n){ ssize_t k=read(fd,c,n); if(k<=0){ if(k<0&&errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
static bool sendMsg(int fd,const std::string&s){ uint64_t n=s.size(); return wrAll(fd,&n,8)&&wrAll(fd,s.data(),n); }
static bool recvMsg(int fd,std::string&s){ uint64_t n; if(!rdAll(fd,&n,8)) return false; s.resize(n); return n==0||rdAll(fd,&s[0],n); }
static std::string decStr(const Prefix&x){ std::string s; for(auto&d:x){ s+=d.k; if(d.k=='C'||d.k=='N'||d.k=='E'||d.k=='e') s+=std::to_string(d.v)+","; } return s; }
static Prefix decParse(const std::string&s){ Prefix x; size_t i=0; while(i<s.size()){ Dec d; d.k=s[i++]; d.v=0; if(d.k=='C'||d.k=='N'||d.k=='E'||d.k=='e'){ size_t e; d.v=std::stoll(s.substr(i),&e); i+=e+1; } x.push_back(d);} return x; }
static std::string jesc(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
struct JobRes { Stats st; std::map<std::string,Viol> viols; std::map<std::string,std::string> vdec; std::map<std::string,long> covers,notes; std::vector<std::string> samples; std::set<int> funcs; long unsup=0; double cpu=0; long leftover=0; };
static const int NSTAT=17;
static void statsOut(Buf&b,Stats&s){ long v[NSTAT]={s.paths,s.infeasible,s.steps,s.queries,s.solverCalls,s.cacheHits,s.unknown,s.forks,s.oblig,s.obligSolver,s.obligNF,s.errexit,s.assumeEnd,s.concr,s.batchUnknown,s.races,0}; for(long x:v) b.i(x); b.d(s.solverT); }
static void statsIn(Buf&b,Stats&s){ long*v[NSTAT]; long dummy=0; long*w[NSTAT]={&s.paths,&s.infeasible,&s.steps,&s.queries,&s.solverCalls,&s.cacheHits,&s.unknown,&s.forks,&s.oblig,&s.obligSolver,&s.obligNF,&s.errexit,&s.assumeEnd,&s.concr,&s.batchUnknown,&s.races,&dummy}; (void)v; for(auto*x:w) *x+=b.ri(); s.solverT+=b.rd(); }
static void workerLoop(Engine&E,std::vector<Job>&jobs,int in,int out){
  std::string m; long since=0; E.zc.reset(new z3::context);
  while(recvMsg(in,m)){
    Buf b; b.s=m; int j=b.ri(); double slice=b.rd(); int wantS=b.ri(); double hard=b.rd(); std::vector<Prefix> stack; size_t n=b.ri(); for(size_t i=0;i<n;i++) stack.push_back(b.rpre());
    E.job=&jobs[j]; E.st=Stats(); E.viols.clear(); E.covers.clear(); E.samples.clear(); E.notes.clear(); E.wantSample=wantS; for(auto*f:E.funcs) f->used=false; double t0=now(); E.deadline=std::min(hard,t0+jobs[j].limit); long unsup=0; std::vector<std::string> vdec;
    while(!stack.empty()){
      Prefix p=std::move(stack.back()); stack.pop_back(); E.frontier.clear(); size_t nv=E.viols.size(); long steps0=E.steps; (void)steps0;
      try{ E.runPath(p); }
      catch(Unsup&u){ unsup++; E.notes.push_back("unsupported: "+u.msg+(E.cur&&E.cur->fr.size()?" in "+E.backtrace(E.cur)[0]:"")); }
      catch(z3::exception&ex){ unsup++; E.notes.push_back(std::string("z3 exception: ")+ex.msg()); }
      catch(std::exception&ex){ unsup++; E.notes.push_back(std::string("engine exception: ")+ex.what()); }
      E.st.steps+=E.steps; for(size_t i=nv;i<E.viols.size();i++) vdec.push_back(decStr(E.dec));
      bool cut=false; for(auto&f:E.frontier) { if(f.size()==p.size()) cut=true; stack.push_back(std::move(f)); } E.frontier.clear();
      if(++since>4000||E.qkeep.size()>60000){ since=0; E.qcache.clear(); E.qmodels.clear(); E.qkeep.clear(); E.resetPath(); E.linSolver.reset(); E.zc.reset(new z3::context); }
      if(cut||now()-t0>slice||now()>hard) break;
    }
    Buf o; o.i(j); statsOut(o,E.st); o.d(now()-t0); o.i(unsup);
    o.i(E.viols.size()); for(size_t i=0;i<E.viols.size();i++){ auto&v=E.viols[i]; o.t(v.kind); o.t(v.msg); o.t(v.where); o.t(v.inputs); o.t(v.detail); std::string bt; for(auto&f:v.stack) bt+=f+"\n"; o.t(bt); o.t(i<vdec.size()?vdec[i]:""); }
    o.i(E.covers.size()); for(auto&c:E.covers){ o.t(c.first); o.i(c.second); }
    std::map<std::string,long> nt; for(auto&s:E.notes) nt[s]++; o.i(nt.size()); for(auto&c:nt){ o.t(c.first); o.i(c.second); }
    o.i(E.samples.size()); for(auto&s:E.samples) o.t(s);
    std::vector<int> fu; for(auto*f:E.funcs) if(f->used&&f->repo) fu.push_back(f->fidx); o.i(fu.size()); for(int f:fu) o.i(f);
    o.i(stack.size()); for(auto&p:stack) o.pre(p);
    if(!sendMsg(out,o.s)) _exit(0);
  }
  _exit(0);
}
int main(int argc,char**argv){
  std::string bc,jf,of; int W=8; double budget=60; std::string path; int pj=-1;
  std::vector<std::string> pos; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--workers") W=atoi(argv[++i]); else if(a=="--budget") budget=atof(argv[++i]); else if(a=="--path"){ pj=atoi(argv[++i]); path=argv[++i]; } else pos.push_back(a); }
  if(pos.size()<3){ fprintf(stderr,"usage: symx BC JOBS OUT [--workers n] [--budget s] [--path job decisions]\n"); return 2; } bc=pos[0]; jf=pos[1]; of=pos[2];
  signal(SIGPIPE,SIG_IGN); struct rlimit rl={RLIM_INFINITY,RLIM_INFINITY}; rl.rlim_cur=1u<<28; setrlimit(RLIMIT_STACK,&rl);
  static Engine E; double T0=now();
  try{ if(!E.load(bc)) return 2; }catch(Unsup&u){ fprintf(stderr,"load: %s\n",u.msg.c_str()); return 2; }
  std::vector<Job> jobs; { std::ifstream f(jf); std::string l; while(std::getline(f,l)){ if(l.empty()) continue; std::vector<std::string> c; std::stringstream ss(l); std::string x; while(std::getline(ss,x,'|')) c.push_back(x); Job j; j.id=jobs.size(); j.name=c[0]; j.entry=c[1]; j.limit=atof(c[2].c_str()); j.maxPaths=atol(c[3].c_str()); j.samples=atoi(c[4].c_str()); if(c.size()>5){ std::stringstream s2(c[5]); while(std::getline(s2,x,',')){ size_t e=x.find('='); j.par[x.substr(0,e)]=atoi(x.substr(e+1).c_str()); } } jobs.push_back(j); } }
  if(pj>=0){ // re-execute one path and print what it does
    E.zc.reset(new z3::context); E.job=&jobs[pj]; E.deadline=now()+600; E.wantSample=false; try{ E.runPath(decParse(path)); }catch(Unsup&u){ printf("unsupported %s\n",u.msg.c_str()); } for(auto&v:E.viols){ printf("%s: %s at %s %s\n",v.kind.c_str(),v.msg.c_str(),v.where.c_str(),v.detail.c_str()); for(auto&f:v.stack) printf("   %s\n",f.c_str()); printf("%s",v.inputs.c_str()); } return E.viols.empty()?0:1; }
  struct Wk { pid_t pid; int in,out; bool busy=false; int job=-1; bool dead=false; }; std::vector<Wk> ws;
  // decode everything once so that workers share it
  for(auto*f:E.funcs) if(!f->F->isDeclaration()){ try{ E.decode(f); }catch(Unsup&u){ f->decoded=false; f->bbs.clear(); } }
  for(int i=0;i<W;i++){ int a[2],b[2]; if(pipe(a)||pipe(b)) return 2; pid_t p=fork(); if(p==0){ for(auto&w:ws){ close(w.in); close(w.out); } close(a[1]); close(b[0]); workerLoop(E,jobs,a[0],b[1]); } close(a[0]); close(b[1]); ws.push_back({p,a[1],b[0]}); }
  struct Task { int job; std::vector<Prefix> ps; }; std::deque<Task> q; std::vector<JobRes> res(jobs.size()); std::vector<int> outstanding(jobs.size(),0); std::vector<int> sampAsked(jobs.size(),0);
  for(auto&j:jobs) q.push_back({j.id,{Prefix()}});
  double hard=T0+budget; int crashed=0;
  auto exhausted=[&](int j){ return res[j].cpu>jobs[j].limit||res[j].st.paths>=jobs[j].maxPaths; };
  for(;;){
    bool any=false;
    for(auto&w:ws) if(!w.busy&&!w.dead){
      while(!q.empty()&&(now()>hard||exhausted(q.front().job))){ res[q.front().job].leftover+=q.front().ps.size(); q.pop_front(); }
      if(q.empty()) break;
      Task t=std::move(q.front()); q.pop_front();
      int idle=0; for(auto&x:ws) if(!x.busy&&!x.dead) idle++;
      if((int)q.size()<idle&&t.ps.size()>1){ // split
        size_t h=t.ps.size()/2; Task t2; t2.job=t.job; t2.ps.assign(t.ps.begin(),t.ps.begin()+h); t.ps.erase(t.ps.begin(),t.ps.begin()+h); q.push_back(std::move(t2)); }
      double slice= res[t.job].cpu<0.5?0.25: (q.empty()?0.4:2.0); int ws_=(sampAsked[t.job]<jobs[t.job].samples); if(ws_) sampAsked[t.job]++;
      Buf b; b.i(t.job); b.d(slice); b.i(ws_); b.d(hard); b.i(t.ps.size()); for(auto&p:t.ps) b.pre(p); w.busy=true; w.job=t.job; outstanding[t.job]++; if(!sendMsg(w.in,b.s)){ w.dead=true; w.busy=false; }
    }
    std::vector<pollfd> pf; std::vector<int> ix; for(size_t i=0;i<ws.size();i++) if(ws[i].busy){ pf.push_back({ws[i].out,POLLIN,0}); ix.push_back(i); any=true; }
    if(!any){ if(q.empty()) break; bool alive=false; for(auto&w:ws) if(!w.dead) alive=true; if(!alive) break; continue; }
    int pr=poll(pf.data(),pf.size(),1000);
    if(now()>hard+25){ for(size_t k=0;k<pf.size();k++){ Wk&w=ws[ix[k]]; kill(w.pid,SIGKILL); w.dead=true; w.busy=false; res[w.job].notes["worker stopped at the time limit"]++; res[w.job].leftover++; } continue; }
    if(pr<=0) continue;
    for(size_t k=0;k<pf.size();k++) if(pf[k].revents){ Wk&w=ws[ix[k]]; std::string m; if(!recvMsg(w.out,m)){ w.dead=true; w.busy=false; crashed++; res[w.job].unsup++; res[w.job].notes["engine worker died"]++; continue; }
      w.busy=false; Buf b; b.s=m; int j=b.ri(); JobRes&r=res[j]; statsIn(b,r.st); r.cpu+=b.rd(); r.unsup+=b.ri();
      for(size_t n=b.ri();n>0;n--){ Viol v; v.kind=b.rt(); v.msg=b.rt(); v.where=b.rt(); v.inputs=b.rt(); v.detail=b.rt(); std::string bt=b.rt(); std::stringstream ss(bt); std::string l; while(std::getline(ss,l)) v.stack.push_back(l); std::string dc=b.rt(); std::string key=v.kind+"|"+v.msg+"|"+(v.kind=="assert"?"":v.where); if(!r.viols.count(key)||(r.viols[key].inputs.empty()&&!v.inputs.empty())){ r.viols[key]=v; r.vdec[key]=dc; } }
      for(size_t n=b.ri();n>0;n--){ std::string s=b.rt(); r.covers[s]+=b.ri(); }
      for(size_t n=b.ri();n>0;n--){ std::string s=b.rt(); r.notes[s]+=b.ri(); }
      size_t ns=b.ri(); for(size_t n=ns;n>0;n--) r.samples.push_back(b.rt());
      if((int)r.samples.size()<sampAsked[j]) sampAsked[j]=r.samples.size();
      for(size_t n=b.ri();n>0;n--) r.funcs.insert(b.ri());
      Task t; t.job=j; for(size_t n=b.ri();n>0;n--) t.ps.push_back(b.rpre()); if(!t.ps.empty()) q.push_back(std::move(t)); }
  }
  for(auto&w:ws){ close(w.in); if(!w.dead) kill(w.pid,SIGKILL); waitpid(w.pid,nullptr,0); }
  std::ofstream o(of); o<<"{\"wall\":"<<now()-T0<<",\"crashed\":"<<crashed<<",\"jobs\":[";
  for(size_t i=0;i<jobs.size();i++){ auto&r=res[i]; Stats&s=r.st; if(i) o<<","; o<<"\n{\"name\":"<<jesc(jobs[i].name)<<",\"entry\":"<<jesc(jobs[i].entry)<<",\"index\":"<<i<<",\"params\":{"; bool f=true; for(auto&p:jobs[i].par){ if(!f) o<<","; f=false; o<<jesc(p.first)<<":"<<p.second; }
    o<<"},\"paths\":"<<s.paths<<",\"infeasible\":"<<s.infeasible<<",\"steps\":"<<s.steps<<",\"queries\":"<<s.queries<<",\"solver_calls\":"<<s.solverCalls<<",\"cache_hits\":"<<s.cacheHits<<",\"unknown\":"<<s.unknown<<",\"forks\":"<<s.forks<<",\"obligations\":"<<s.oblig<<",\"by_solver\":"<<s.obligSolver<<",\"by_normal_form\":"<<s.obligNF<<",\"undecided\":"<<s.batchUnknown<<",\"error_exits\":"<<s.errexit<<",\"assume_ends\":"<<s.assumeEnd<<",\"solver_time\":"<<s.solverT<<",\"cpu\":"<<r.cpu<<",\"unsupported\":"<<r.unsup<<",\"leftover\":"<<r.leftover<<",\"covers\":{";
    f=true; for(auto&c:r.covers){ if(!f) o<<","; f=false; o<<jesc(c.first)<<":"<<c.second; } o<<"},\"notes\":{"; f=true; for(auto&c:r.notes){ if(!f) o<<","; f=false; o<<jesc(c.first)<<":"<<c.second; }
    o<<"},\"functions\":["; f=true; for(int x:r.funcs){ if(!f) o<<","; f=false; o<<jesc(E.funcs[x]->name); } o<<"],\"samples\":["; f=true; for(auto&x:r.samples){ if(!f) o<<","; f=false; o<<jesc(x); }
    o<<"],\"violations\":["; f=true; for(auto&kv:r.viols){ auto&v=kv.second; if(!f) o<<","; f=false; o<<"{\"kind\":"<<jesc(v.kind)<<",\"msg\":"<<jesc(v.msg)<<",\"where\":"<<jesc(v.where)<<",\"inputs\":"<<jesc(v.inputs)<<",\"detail\":"<<jesc(v.detail)<<",\"path\":"<<jesc(r.vdec[kv.first])<<",\"stack\":["; bool g=true; for(auto&x:v.stack){ if(!g) o<<","; g=false; o<<jesc(x); } o<<"]}"; } o<<"]}"; }
  o<<"]}\n"; return crashed?3:0;
}
