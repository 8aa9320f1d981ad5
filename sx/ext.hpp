// ---- models of everything outside the repository's own code: libc, libm, OpenMP runtime, harness intrinsics
static std::string fullName(Engine&E,Thread&t,const std::string&nm){ int k=E.nameCnt[std::to_string(t.proc->rank)+"|"+nm]++; return nm+"."+std::to_string(k); }
static Input* findInput(Engine&E,const std::string&nm){ for(auto&i:E.inputs) if(i.name==nm) return &i; return nullptr; }
static Val mkReal(Engine&E,const std::string&nm,int mask){
  if(Input*i=findInput(E,nm)) return VP(E.pc.atomPoly(i->atom));
  Input in; in.t='R'; in.name=nm; in.vid=E.nvid++; in.atom=E.pc.newVar(nm,in.vid,mask); E.inputs.push_back(in); return VP(E.pc.atomPoly(in.atom)); }
static Val mkInt(Engine&E,const std::string&nm,int64_t lo,int64_t hi){
  if(Input*i=findInput(E,nm)) return VS(i->sym,32);
  Input in; in.t='I'; in.name=nm; in.vid=E.nvid++; z3::expr e=E.zc->bv_const(nm.c_str(),32); E.symx.push_back(e); E.symv.push_back({in.vid}); in.sym=E.symx.size()-1; E.inputs.push_back(in);
  { z3::expr rg= e>=E.zc->bv_val((int)lo,32)&&e<=E.zc->bv_val((int)hi,32); E.cons.push_back(Cons{rg,{in.vid},false,rg}); } return VS(in.sym,32); }
static const Poly* argP(Engine&E,const Val&v,const char*what){ if(v.k==V_UNDEF) E.viol("uninitialised",std::string("an observed result is uninitialised: ")+what); return E.toPoly(v); }
static uint64_t i64(Engine&E,const Val&v){ return E.conc(v); }
static int i32(Engine&E,const Val&v){ return (int)(int32_t)E.conc(v); }
struct FmtSpec { std::string lit; char conv=0; std::string flags; std::string lenm; std::string set; bool star=false; int prec=-1; bool precStar=false; };
static std::vector<FmtSpec> parseFmt(const std::string&f,bool scan){
  std::vector<FmtSpec> r; size_t i=0; std::string lit;
  while(i<f.size()){
    if(f[i]!='%'){ lit+=f[i++]; continue; }
    if(i+1<f.size()&&f[i+1]=='%'){ lit+='%'; i+=2; continue; }
    if(!lit.empty()){ FmtSpec s; s.lit=lit; r.push_back(s); lit.clear(); }
    FmtSpec s; i++;
    while(i<f.size()&&(strchr("-+ #0",f[i])||isdigit(f[i])||f[i]=='.'||f[i]=='*')){ if(f[i]=='*'){ if(scan) s.star=true; else s.precStar=true; } s.flags+=f[i++]; }
    while(i<f.size()&&strchr("hlLzjt",f[i])) s.lenm+=f[i++];
    if(i>=f.size()) break;
    s.conv=f[i++]; if(s.conv=='['){ size_t j=i; if(j<f.size()&&f[j]=='^') j++; if(j<f.size()&&f[j]==']') j++; while(j<f.size()&&f[j]!=']') j++; s.set=f.substr(i,j-i); i=j+1; }
    r.push_back(s);
  }
  if(!lit.empty()){ FmtSpec s; s.lit=lit; r.push_back(s); }
  return r;
}
// formatted output to a list of items
static void fmtOut(Engine&E,const std::string&fmt,Val*a,int n,std::vector<FileItem>&out){
  int k=0; auto lits=[&](const std::string&s){ for(char c:s) out.push_back(FileItem{false,c,VU()}); };
  for(auto&s:parseFmt(fmt,false)){
    if(!s.conv){ lits(s.lit); continue; }
    int pst=-1; if(s.precStar&&k<n) pst=i32(E,a[k++]);
    if(k>=n) throw Unsup{"printf: missing argument"}; Val v=a[k++];
    if(v.k==V_UNDEF) E.viol("uninitialised","uninitialised value written to output");
    switch(s.conv){
      case 'd': case 'i': case 'u': { int64_t x= s.lenm.empty()? (int64_t)i32(E,v):(int64_t)i64(E,v); lits(std::to_string(x)); break; }
      case 'x': case 'X': { char b[32]; snprintf(b,sizeof b,"%lx",(unsigned long)i64(E,v)); lits(b); break; }
      case 'p': lits("0xptr"); break;
      case 'c': { out.push_back(FileItem{false,(int)i64(E,v),VU()}); break; }
      case 's': { std::string x; if(pst>=0){ uint64_t p=i64(E,v); for(int q=0;q<pst;q++){ std::string c; uint32_t off; Obj*o=E.access(p+q,1,false,off); if(!o->data[off]) break; x+=(char)o->data[off]; } } else x=E.cstr(i64(E,v)); lits(x); break; }
      case 'e': case 'f': case 'g': case 'E': case 'G': case 'F': lits(" "); if(v.k==V_INT) throw Unsup{"printf: float expected"}; { FileItem fi; fi.isVal=true; fi.ch=0; fi.v=v;
          // precision of the text representation: enough digits keep the value, fewer do not
          int prec=6; size_t dot=s.flags.find('.'); if(dot!=std::string::npos) prec=atoi(s.flags.c_str()+dot+1); fi.ch=prec*2+((s.conv=='f'||s.conv=='F')?1:0); out.push_back(fi);} break;
      default: throw Unsup{std::string("printf conversion ")+s.conv};
    }
  }
}
static FileH* fileOf(Engine&E,const Val&v,bool&console){
  console=false; uint64_t a=E.conc(v); uint64_t i=a>>32; if(i>=0x3ffffff0&&i<0x3ffffff4){ console=true; return nullptr; }
  if(a==0) E.viol("null-deref","stdio call on a null FILE pointer"); uint32_t off; Obj*o=E.find(a,off); if(!o||o->kind!=OK_FILE) E.viol("invalid-pointer","stdio call on something that is not a FILE");
  FileH&h=E.fhs[o->owner]; if(!h.open) E.viol("use-after-free","stdio call on a closed FILE"); return &h; }
static bool isSp(const FileItem&f){ return !f.isVal&&(f.ch==' '||f.ch=='\n'||f.ch=='\t'||f.ch=='\r'); }
static void skipWs(FileH&h){ while(h.pos<h.data->size()&&isSp((*h.data)[h.pos])) h.pos++; }
static void putStr(Engine&E,uint64_t p,const std::string&s){ uint32_t off; Obj*o=E.access(p,s.size()+1,true,off); E.killCells(o,off,s.size()+1); memcpy(&o->data[off],s.c_str(),s.size()+1); memset(&o->tag[off],1,s.size()+1); }
static MT mtInt(int bytes){ MT m; m.k=MT::INT; m.size=bytes; m.bits=bytes*8; return m; }
static MT mtF(int bytes){ MT m; m.k=bytes==4?MT::F32:MT::F64; m.size=bytes; m.bits=bytes*8; return m; }
// a value written with too few digits is not the value any more: replace by a fresh unknown
static Val readBack(Engine&E,const FileItem&f,bool dbl){ Val v=f.v; int prec=f.ch/2; bool fixed=f.ch&1; int need= 6; (void)dbl; if((prec<need||fixed)&&!(v.k==V_FLT&&v.d==std::floor(v.d))){ std::string nm="lossy."+std::to_string(E.nvid); int vid=E.nvid++; int at=E.pc.newVar(nm,vid,S_ANY); return VP(E.pc.atomPoly(at)); } return v; }
static int doScan(Engine&E,FileH&h,const std::string&fmt,Val*a,int n){
  int k=0,cnt=0; auto&D=*h.data; bool eofBefore=false;
  for(auto&s:parseFmt(fmt,true)){
    if(!s.conv){ for(char c:s.lit){ if(isspace(c)) skipWs(h); else { if(h.pos>=D.size()) return cnt?cnt:-1; if(D[h.pos].isVal||D[h.pos].ch!=c) return cnt; h.pos++; } } continue; }
    if(s.conv!='c'&&s.conv!='[') skipWs(h);
    if(h.pos>=D.size()){ return cnt?cnt:-1; }
    (void)eofBefore;
    switch(s.conv){
      case 'd': case 'i': case 'u': { if(D[h.pos].isVal){ return cnt; } std::string t; size_t p=h.pos; if(D[p].ch=='-'||D[p].ch=='+') t+=(char)D[p++].ch; while(p<D.size()&&!D[p].isVal&&isdigit(D[p].ch)) t+=(char)D[p++].ch; if(t.empty()||!isdigit(t.back())) return cnt; h.pos=p; if(!s.star){ E.store(i64(E,a[k++]),mtInt(s.lenm.size()&&s.lenm[0]=='l'?8:4),VI((uint64_t)atoll(t.c_str()),64)); cnt++; } break; }
      case 'f': case 'g': case 'e': case 'E': case 'G': { Val v; bool dbl=!s.lenm.empty(); if(D[h.pos].isVal){ v=readBack(E,D[h.pos],dbl); h.pos++; } else { std::string t; size_t p=h.pos; while(p<D.size()&&!D[p].isVal&&(isdigit(D[p].ch)||strchr("+-.eE",D[p].ch))) t+=(char)D[p++].ch; if(t.empty()) return cnt; h.pos=p; v=VF(atof(t.c_str())); }
          if(!s.star){ E.store(i64(E,a[k++]),mtF(dbl?8:4),v); cnt++; } break; }
      case 's': { std::string t; while(h.pos<D.size()&&!isSp(D[h.pos])){ if(D[h.pos].isVal) throw Unsup{"fscanf %s over a number"}; t+=(char)D[h.pos++].ch; } if(!s.star){ putStr(E,i64(E,a[k++]),t); cnt++; } break; }
      case '[': { std::string t; bool neg=s.set.size()&&s.set[0]=='^'; std::string st2=neg?s.set.substr(1):s.set; while(h.pos<D.size()){ if(D[h.pos].isVal) throw Unsup{"fscanf %[ over a number"}; bool in=st2.find((char)D[h.pos].ch)!=std::string::npos; if(in==neg) break; t+=(char)D[h.pos++].ch; } if(t.empty()) return cnt; if(!s.star){ putStr(E,i64(E,a[k++]),t); cnt++; } break; }
      case 'c': { if(!s.star){ E.store(i64(E,a[k++]),mtInt(1),VI(D[h.pos].ch,8)); cnt++; } h.pos++; break; }
      default: throw Unsup{"fscanf conversion"};
    }
  }
  return cnt;
}
static bool tooBig(Engine&E,Thread&t,uint64_t n){ if(n<(1ull<<47)) return false; Val r; Val no[1]; E.ext["__errno_location"](E,t,DI(),no,0,r); E.store(E.conc(r),mtInt(4),VI(12,32)); return true; } // beyond the address space: ENOMEM
static uint64_t heapAlloc(Engine&E,Thread&t,uint64_t n,bool zero){ uint64_t a=E.alloc(n,OK_HEAP,zero); Obj*o=E.objs[(a>>32)-1]; o->owner=t.proc->rank; E.live++; for(int i=(int)t.fr.size()-1;i>=0;i--){ Frame&f=t.fr[i]; int pcx=f.pc; if(i!=(int)t.fr.size()-1) pcx--; if(pcx>=0&&pcx<(int)f.f->bbs[f.bb].ins.size()) o->site=f.f->bbs[f.bb].ins[pcx].I; if(f.f->name.find("allocate_memory")==std::string::npos&&f.f->repo) break; } return a; }
static Val cplx(Engine&E,const Val&re,const Val&im){ Agg*g=new Agg; E.aggs.emplace_back(g); g->v={re,im}; return VA(g); }
static Val comp(Engine&E,const Val&v,int i){ if(v.k==V_AGG) return v.a->v[i]; if(v.k==V_UNDEF) return v; throw Unsup{"complex argument"}; }
static Val zabs(Engine&E,const Val&re,const Val&im){ if(re.k==V_UNDEF||im.k==V_UNDEF) return VU(); const Poly*r=E.pc.norm(E.toPoly(re)),*i=E.pc.norm(E.toPoly(im)); if(i->t.empty()) return E.fabsv(E.fromPoly(r)); if(r->t.empty()) return E.fabsv(E.fromPoly(i)); return E.fromPoly(E.pc.sqrtP(E.pc.add(E.pc.mul(r,r),E.pc.mul(i,i)))); }
static Val zmul(Engine&E,const Val&a,const Val&b,const Val&c,const Val&d){ Val re=E.farith(OP_FSUB,E.farith(OP_FMUL,a,c),E.farith(OP_FMUL,b,d)), im=E.farith(OP_FADD,E.farith(OP_FMUL,a,d),E.farith(OP_FMUL,b,c)); return cplx(E,re,im); }
static Val zdiv(Engine&E,const Val&a,const Val&b,const Val&c,const Val&d){
  if((d.k==V_FLT&&d.d==0)) return cplx(E,E.fdivv(a,c),E.fdivv(b,c));
  Val den=E.farith(OP_FADD,E.farith(OP_FMUL,c,c),E.farith(OP_FMUL,d,d));
  Val re=E.farith(OP_FADD,E.farith(OP_FMUL,a,c),E.farith(OP_FMUL,b,d)), im=E.farith(OP_FSUB,E.farith(OP_FMUL,b,c),E.farith(OP_FMUL,a,d)); return cplx(E,E.fdivv(re,den),E.fdivv(im,den)); }
// got is want, or (got is zero and |want| <= thr)
static void thrAssert(Engine&E,const Poly*gr,const Poly*gi,const Poly*wr,const Poly*wi,const Poly*thr,const std::string&msg){
  auto&pc=E.pc; gr=pc.norm(gr); wr=pc.norm(wr); if(gi) gi=pc.norm(gi); if(wi) wi=pc.norm(wi);
  const Poly*dr=pc.norm(pc.add(gr,wr,-1)); const Poly*di= gi? pc.norm(pc.add(gi,wi,-1)):nullptr;
  E.st.oblig++;
  if(dr->t.empty()&&(!di||di->t.empty())){ E.nfProved(gr,wr,msg); if(di) E.nfProved(gi,wi,msg,false); return; }
  std::set<int> vs; bool nl=false; auto use=[&](const Poly*p){ pc.closure(p,vs); nl=nl||E.nonlin(p); };
  use(dr); if(di) use(di); use(gr); if(gi) use(gi); use(wr); if(wi) use(wi); use(thr);
  bool gz=gr->t.empty()&&(!gi||gi->t.empty());
  E.sides.clear(); E.sideOf.clear(); z3::expr z=E.zc->real_val(0);
  z3::expr eq= E.zpoly(dr)==z; if(di) eq= eq && E.zpoly(di)==z;
  z3::expr small(*E.zc);
  thr=pc.norm(thr);
  if(thr->t.empty()){ small=eq; }
  else if(!di||di==nullptr){ z3::expr w=E.zpoly(wr), th=E.zpoly(thr); small= w<=th && -w<=th; }
  else { const Poly*e=pc.norm(pc.add(pc.add(pc.mul(wr,wr),pc.mul(wi,wi)),pc.mul(thr,thr),-1)); use(e); 
    if(!(pc.quickSign(e)&S_POS)&&gz){ E.st.obligNF++; return; } small= E.zpoly(e)<=z; nl=true; }
  z3::expr zero= gz? E.zc->bool_val(true) : (E.zpoly(gr)==z && (gi? E.zpoly(gi)==z : E.zc->bool_val(true)));
  z3::expr neg= !(eq || (zero && small)); for(auto&s:E.sides) neg= neg && s.first;
  const Poly*wd=nullptr; int wm=0; z3::expr lin(*E.zc); bool hl=false;
  if(thr->t.empty()){ wd= di? pc.norm(pc.add(pc.mul(dr,dr),pc.mul(di,di))):dr; wm=S_NEG|S_POS; lin=E.linExpr(dr,S_NEG|S_POS); if(di) lin= lin || E.linExpr(di,S_NEG|S_POS); hl=true; }
  else if(gz){ wd=pc.norm(pc.add(wi? pc.add(pc.mul(wr,wr),pc.mul(wi,wi)):pc.mul(wr,wr),pc.mul(thr,thr),-1)); wm=S_POS; if(wi) lin=E.linExpr(wd,S_POS); else lin= E.linExpr(pc.norm(pc.add(wr,thr,-1)),S_POS) || E.linExpr(pc.norm(pc.add(wr,thr)),S_NEG); hl=true; }
  E.decideNeg(neg,std::vector<int>(vs.begin(),vs.end()),nl,msg,wd,wm,hl?&lin:nullptr);
}
static void eqAssert(Engine&E,const Poly*g,const Poly*w,const std::string&msg){
  auto&pc=E.pc; E.st.oblig++; g=pc.norm(g); w=pc.norm(w); const Poly*d=pc.norm(pc.add(g,w,-1)); if(d->t.empty()){ E.nfProved(g,w,msg); return; }
  int q=pc.quickSign(d); (void)q; 
  // an irrational side: prove equality of squares when signs are known (sqrt atoms)
  z3::expr neg=E.signExpr(d,S_NEG|S_POS),lin=E.linExpr(d,S_NEG|S_POS); E.decideNeg(neg,E.pvars(d),E.nonlin(d),msg,d,S_NEG|S_POS,&lin);
}
static void signAssert(Engine&E,const Poly*d,int mask,const std::string&msg){ auto&pc=E.pc; E.st.oblig++; d=pc.norm(d); int q=pc.quickSign(d); if(!(q&~mask)){ E.st.obligNF++; return; } 
  // reduce single abs/sqrt atoms
  z3::expr neg=E.signExpr(d,S_ANY&~mask),lin=E.linExpr(d,S_ANY&~mask); E.decideNeg(neg,E.pvars(d),E.nonlin(d),msg,d,S_ANY&~mask,&lin); }
// worksharing
template<class S> static int staticInit(Engine&E,Thread&t,Val*a,int bytes){
  int sched=i32(E,a[2]); uint64_t pl=i64(E,a[3]),plo=i64(E,a[4]),pup=i64(E,a[5]),pst=i64(E,a[6]); MT m=mtInt(bytes), m4=mtInt(4);
  auto ld=[&](uint64_t p){ return sx(E.conc(E.load(p,m)),bytes*8); };
  __int128 lb=std::is_unsigned<S>::value? (__int128)(S)ld(plo):(__int128)ld(plo), ub=std::is_unsigned<S>::value?(__int128)(S)ld(pup):(__int128)ld(pup); int64_t incr=sx(E.conc(a[7]),bytes*8), chunk=sx(E.conc(a[8]),bytes*8);
  auto st=[&](uint64_t p,__int128 v){ E.store(p,m,VI((uint64_t)(int64_t)v,bytes*8)); };
  int nth=t.nth,tid=t.tid; 
  if((incr>0&&ub<lb)||(incr<0&&lb<ub)){ E.store(pl,m4,VI(0,32)); st(pst,incr); return 0; }
  if(nth==1){ E.store(pl,m4,VI(1,32)); st(pst, incr>0? ub-lb+1 : -(lb-ub+1)); return 0; }
  __int128 trip= incr>0? (ub-lb)/incr+1 : (lb-ub)/(-incr)+1; bool last;
  if(sched==33){ if(chunk<1) chunk=1; __int128 span=chunk*incr; st(pst,span*nth); lb+=span*tid; ub=lb+span-incr; last= tid==(int)(((trip-1)/chunk)%nth); }
  else if(trip<nth){ if(tid<trip){ lb=ub=lb+tid*incr; } else lb=ub+incr; last= tid==trip-1; st(pst,trip); }
  else { __int128 small=trip/nth, ex=trip%nth; lb+=incr*(tid*small+(tid<ex?tid:ex)); ub=lb+small*incr-(tid<ex?0:incr); last= tid==nth-1; st(pst,trip); }
  st(plo,lb); st(pup,ub); E.store(pl,m4,VI(last,32)); return 0;
}
#define H(nm) ext[nm]=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int
void registerMpi(Engine&E);
void Engine::registerExt(){
  // ---- memory
  H("malloc"){ if(tooBig(E,t,i64(E,a[0]))){ ret=VI(0,64); return 0; } ret=VI(heapAlloc(E,t,i64(E,a[0]),false),64); return 0; };
  H("calloc"){ uint64_t x=i64(E,a[0]),y=i64(E,a[1]),xy; if(__builtin_mul_overflow(x,y,&xy)) xy=~0ull; if(tooBig(E,t,xy)){ ret=VI(0,64); return 0; } ret=VI(heapAlloc(E,t,x*y,true),64); return 0; };
  H("realloc"){ uint64_t p=i64(E,a[0]),sz=i64(E,a[1]); if(tooBig(E,t,sz)){ ret=VI(0,64); return 0; } uint64_t q=heapAlloc(E,t,sz,false); if(p){ uint32_t off; Obj*o=E.find(p,off); if(!o||o->kind!=OK_HEAP||!o->alive||off) E.viol("bad-free","realloc of an invalid pointer"); E.copyMem(q,p,std::min<uint64_t>(sz,o->size)); E.freeHeap(p,"realloc"); } ret=VI(q,64); return 0; };
  H("posix_memalign"){ uint64_t al=i64(E,a[1]); if(al%8||(al&(al-1))||!al){ ret=VI(22,32); return 0; } if(tooBig(E,t,i64(E,a[2]))){ ret=VI(12,32); return 0; } uint64_t q=heapAlloc(E,t,i64(E,a[2]),false); E.store(i64(E,a[0]),mtInt(8),VI(q,64)); ret=VI(0,32); return 0; };
  H("aligned_alloc"){ if(tooBig(E,t,i64(E,a[1]))){ ret=VI(0,64); return 0; } ret=VI(heapAlloc(E,t,i64(E,a[1]),false),64); return 0; };
  H("free"){ E.freeHeap(i64(E,a[0]),"free"); return 0; };
  H("memcpy"){ uint64_t D=i64(E,a[0]),S=i64(E,a[1]),N=i64(E,a[2]); if(N){ if(D!=S&&(D>>32)==(S>>32)&&D<S+N&&S<D+N) E.viol("memcpy-overlap","memcpy between overlapping ranges"); E.copyMem(D,S,N); } ret=a[0]; return 0; };
  ext["llvm.memcpy"]=ext["memcpy"];
  H("memmove"){ E.copyMem(i64(E,a[0]),i64(E,a[1]),i64(E,a[2])); ret=a[0]; return 0; }; ext["llvm.memmove"]=ext["memmove"];
  H("memset"){ E.setMem(i64(E,a[0]),(int)(E.conc(a[1])&255),i64(E,a[2])); ret=a[0]; return 0; }; ext["llvm.memset"]=ext["memset"];
  H("llvm.stacksave"){ ret=VI((uint64_t)t.fr.back().allocas.size()+1,64); return 0; };
  H("llvm.stackrestore"){ uint64_t k=i64(E,a[0])-1; auto&al=t.fr.back().allocas; while(al.size()>k){ Obj*o=E.objs[al.back()]; o->alive=false; o->cells.clear(); o->sh.clear(); al.pop_back(); } return 0; };
  auto nop=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ ret=VI(0,64); return 0; };
  for(auto*s:{"llvm.va_start","llvm.va_end","llvm.va_copy","llvm.lifetime","llvm.assume","printf","vprintf","puts","putchar","fflush","pclose","popen","vfprintf","perror","srand"}) ext[s]=nop;
  H("vprintf"){ if(E.lastLog.size()<200) E.lastLog+=E.cstr(i64(E,a[0])); ret=VI(0,32); return 0; };
  H("printf"){ if(E.lastLog.size()<200) E.lastLog+=E.cstr(i64(E,a[0])); ret=VI(0,32); return 0; };
  H("backtrace"){ ret=VI(0,32); return 0; };
  H("backtrace_symbols"){ ret=VI(0,64); return 0; };
  H("strerror"){ uint64_t p=E.alloc(1,OK_GLOBAL,true); ret=VI(p,64); return 0; };
  H("__errno_location"){ uint64_t p=E.alloc(4,OK_GLOBAL,true); ret=VI(p,64); return 0; };
  H("getenv"){ ret=VI(0,64); return 0; };
  H("strcmp"){ std::string x=E.cstr(i64(E,a[0])),y=E.cstr(i64(E,a[1])); int r=x<y?-1:x>y?1:0; ret=VI((uint64_t)(int64_t)r,32); return 0; };
  H("strlen"){ ret=VI(E.cstr(i64(E,a[0])).size(),64); return 0; };
  H("strncpy"){ std::string s=E.cstr(i64(E,a[1])); uint64_t N=i64(E,a[2]); uint64_t D=i64(E,a[0]); if(s.size()>N) s.resize(N); s.resize(N,0); if(N){ uint32_t off; Obj*o=E.access(D,N,true,off); E.killCells(o,off,N); memcpy(&o->data[off],s.data(),N); memset(&o->tag[off],1,N);} ret=a[0]; return 0; };
  H("strcpy"){ putStr(E,i64(E,a[0]),E.cstr(i64(E,a[1]))); ret=a[0]; return 0; };
  H("snprintf"){ std::vector<FileItem> o; fmtOut(E,E.cstr(i64(E,a[2])),a+3,n-3,o); std::string s; for(auto&f:o){ if(f.isVal) s+="<num>"; else s+=(char)f.ch; } uint64_t N=i64(E,a[1]); ret=VI(s.size(),32); if(N){ if(s.size()>=N) s.resize(N-1); putStr(E,i64(E,a[0]),s);} return 0; };
  H("sprintf"){ std::vector<FileItem> o; fmtOut(E,E.cstr(i64(E,a[1])),a+2,n-2,o); std::string s; for(auto&f:o){ if(f.isVal) s+="<num>"; else s+=(char)f.ch; } ret=VI(s.size(),32); putStr(E,i64(E,a[0]),s); return 0; };
  // ---- files: contents are sequences of characters and exact numbers
  H("fopen"){ std::string nm=E.cstr(i64(E,a[0])),md=E.cstr(i64(E,a[1])); auto it=E.files.find(nm); if(md[0]=='r'){ if(it==E.files.end()){ ret=VI(0,64); return 0; } } if(md[0]=='w') E.files[nm].clear(); auto&v=E.files[nm]; FileH h; h.data=&v; h.wr=md[0]!='r'; E.fhs.push_back(h); uint64_t p=E.alloc(8,OK_FILE,true); Obj*o=E.objs[(p>>32)-1]; o->owner=E.fhs.size()-1; ret=VI(p,64); return 0; };
  H("remove"){ std::string nm=E.cstr(i64(E,a[0])); { auto it=E.files.find(nm); if(it!=E.files.end()) for(auto&h:E.fhs) if(h.open&&h.data==&it->second) throw Unsup{"remove of an open file"}; } ret=VI(E.files.erase(nm)?0:(uint32_t)-1,32); return 0; };
  H("fclose"){ bool con; FileH*h=fileOf(E,a[0],con); if(h) h->open=false; ret=VI(0,32); return 0; };
  H("fprintf"){ bool con; FileH*h=fileOf(E,a[0],con); std::string f=E.cstr(i64(E,a[1])); if(!h){ if(E.lastLog.size()<200) E.lastLog+=f; ret=VI(0,32); return 0; } if(!h->wr) throw Unsup{"fprintf to a file open for reading"}; fmtOut(E,f,a+2,n-2,*h->data); ret=VI(1,32); return 0; };
  H("__isoc99_fscanf"){ bool con; FileH*h=fileOf(E,a[0],con); if(!h) throw Unsup{"fscanf from console"}; int r=doScan(E,*h,E.cstr(i64(E,a[1])),a+2,n-2); ret=VI((uint64_t)(int64_t)r,32); return 0; };
  ext["fscanf"]=ext["__isoc99_fscanf"];
  H("fgets"){ bool con; FileH*h=fileOf(E,a[2],con); int N=i32(E,a[1]); if(!h||h->pos>=h->data->size()){ ret=VI(0,64); return 0; } std::string s; auto&D=*h->data; while(h->pos<D.size()&&(int)s.size()<N-1){ FileItem&f=D[h->pos++]; if(f.isVal) s+="0.0"; else { s+=(char)f.ch; if(f.ch=='\n') break; } } putStr(E,i64(E,a[0]),s); ret=a[0]; return 0; };
  H("exit"){ if(!E.allowExit){ E.pendingDetail="last message: "+E.lastLog; E.violSoft("unexpected-exit","a valid request ends the program with an error"); throw PathEnd{"violation"}; } if(i32(E,a[0])==0){ E.violSoft("unexpected-exit","an invalid request ends the program reporting success"); throw PathEnd{"violation"}; } throw PathEnd{"error-exit"}; };
  H("abort"){ E.violSoft("unexpected-exit","the program aborts"); throw PathEnd{"violation"}; };
  H("__assert_fail"){ E.pendingDetail=E.cstr(i64(E,a[0])); E.violSoft("assertion-failed","an internal assert of the library fails"); throw PathEnd{"violation"}; };
  // ---- math
  H("rand"){ std::string nm=fullName(E,t,"rand"); int vid=E.nvid++; z3::expr e=E.zc->bv_const(nm.c_str(),32); E.symx.push_back(e); E.symv.push_back({vid}); int s=E.symx.size()-1; bool rp=E.job->par.count("rpos")&&E.job->par.at("rpos"); z3::expr lo=e>=E.zc->bv_val(rp?1:0,32); E.cons.push_back(Cons{lo,{vid},false,lo}); Input in; in.t='R'; in.name=nm; in.vid=E.nvid++; in.atom=E.pc.newVar(nm,in.vid,rp?S_POS:S_POS|S_ZERO); E.inputs.push_back(in); E.randAtom[s]=in.atom; z3::expr rv=E.zc->real_const(nm.c_str()); { z3::expr rg= (rp? rv>=1 : rv>=0)&&rv<=E.zc->real_val("2147483647"); E.cons.push_back(Cons{rg,{in.vid},false,rg}); } ret=VS(s,32); return 0; };
  H("fabs"){ ret=E.fabsv(a[0]); return 0; }; ext["fabsf"]=ext["fabs"]; ext["llvm.fabs"]=ext["fabs"];
  H("sqrt"){ ret=E.fsqrtv(a[0]); return 0; }; ext["sqrtf"]=ext["sqrt"]; ext["llvm.sqrt"]=ext["sqrt"];
  H("llvm.is.fpclass"){ uint64_t m=i64(E,a[1]); Val v=a[0]; if(v.k==V_UNDEF) E.viol("uninitialised","classification of an uninitialised value"); uint64_t fin=m&0x1f8; bool r;
    if(v.k==V_FLT&&!std::isfinite(v.d)) r= std::isnan(v.d)?(m&3)!=0:v.d<0?(m>>2&1):(m>>9&1); else if(fin==0x1f8) r=true; else if(!fin) r=false;
    else if(E.fcmp(FCmpInst::FCMP_OEQ,v,VF(0))) r=(m&0x60)!=0; else if(E.fcmp(FCmpInst::FCMP_OLT,v,VF(0))) r=(m&0x8)!=0; else r=(m&0x100)!=0; ret=VI(r,1); return 0; };
  H("llvm.fmuladd"){ ret=E.farith(OP_FADD,E.farith(OP_FMUL,a[0],a[1]),a[2]); return 0; };
  auto rnd=[](Engine&E,const Val&v,bool up)->Val{ if(v.k==V_UNDEF) return v; if(v.k==V_FLT) return VF(up?std::ceil(v.d):std::floor(v.d)); const Poly*p=E.pc.norm(E.toPoly(v)); if(!p->isConst()) throw Unsup{"ceil/floor of a symbolic value"}; Q q=p->t.empty()?Q(0):p->t[0].second; mpz_class z; if(up) mpz_cdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); else mpz_fdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return E.fromPoly(E.pc.constant(Q(z))); };
  static auto rndS=rnd;
  H("ceil"){ ret=rndS(E,a[0],true); return 0; }; ext["ceilf"]=ext["ceil"]; ext["llvm.ceil"]=ext["ceil"];
  H("floor"){ ret=rndS(E,a[0],false); return 0; }; ext["floorf"]=ext["floor"]; ext["llvm.floor"]=ext["floor"];
  H("fmax"){ ret=E.fcmp(FCmpInst::FCMP_OGE,a[0],a[1])?a[0]:a[1]; return 0; }; ext["fmaxf"]=ext["fmax"]; ext["llvm.maxnum"]=ext["fmax"];
  H("fmin"){ ret=E.fcmp(FCmpInst::FCMP_OLE,a[0],a[1])?a[0]:a[1]; return 0; }; ext["fminf"]=ext["fmin"]; ext["llvm.minnum"]=ext["fmin"];
  H("cabs"){ ret=zabs(E,a[0],a[1]); return 0; };
  H("cabsf"){ ret=zabs(E,comp(E,a[0],0),comp(E,a[0],1)); return 0; };
  H("hypot"){ ret=zabs(E,a[0],a[1]); return 0; }; ext["hypotf"]=ext["hypot"];
  H("creal"){ ret=a[0]; return 0; }; H("cimag"){ ret=a[1]; return 0; };
  H("crealf"){ ret=comp(E,a[0],0); return 0; }; H("cimagf"){ ret=comp(E,a[0],1); return 0; };
  H("conj"){ ret=cplx(E,a[0],E.fneg(a[1])); return 0; }; H("conjf"){ ret=cplx(E,comp(E,a[0],0),E.fneg(comp(E,a[0],1))); return 0; };
  H("__muldc3"){ ret=zmul(E,a[0],a[1],a[2],a[3]); return 0; }; ext["__mulsc3"]=ext["__muldc3"];
  H("__divdc3"){ ret=zdiv(E,a[0],a[1],a[2],a[3]); return 0; }; ext["__divsc3"]=ext["__divdc3"];
  H("llvm.abs"){ Val v=a[0]; if(v.k==V_INT){ int w=v.w; int64_t x=sx(v.i,w); ret=VI((uint64_t)(x<0?-x:x),w); } else if(v.k==V_UNDEF) ret=v; else { z3::expr e=E.symx[v.s]; ret=E.newSym(z3::ite(e<E.zc->bv_val(0,v.w),-e,e),v.w,E.svars(v)); } return 0; };
  H("abs"){ Val v=a[0]; if(v.k==V_INT){ int64_t x=sx(v.i,v.w); ret=VI((uint64_t)(x<0?-x:x),v.w); } else if(v.k==V_UNDEF) ret=v; else { z3::expr e=E.symx[v.s]; ret=E.newSym(z3::ite(e<E.zc->bv_val(0,v.w),-e,e),v.w,E.svars(v)); } return 0; };
  auto mm=[](Engine&E,Val&x,Val&y,bool sgn,bool mx)->Val{ if(x.k==V_UNDEF||y.k==V_UNDEF) return VU(); if(x.k==V_INT&&y.k==V_INT){ bool ge= sgn? sx(x.i,x.w)>=sx(y.i,y.w): x.i>=y.i; return ge==mx?x:y; } z3::expr p=E.zsym(x),q=E.zsym(y); z3::expr ge= sgn? p>=q : z3::uge(p,q); auto vs=E.svars(x); auto v2=E.svars(y); vs.insert(v2.begin(),v2.end()); return E.newSym(mx? z3::ite(ge,p,q):z3::ite(ge,q,p),x.w,vs); };
  static auto mmS=mm;
  H("llvm.smax"){ ret=mmS(E,a[0],a[1],true,true); return 0; }; H("llvm.smin"){ ret=mmS(E,a[0],a[1],true,false); return 0; }; H("llvm.umax"){ ret=mmS(E,a[0],a[1],false,true); return 0; }; H("llvm.umin"){ ret=mmS(E,a[0],a[1],false,false); return 0; };
  H("llvm.expect"){ ret=a[0]; return 0; };
  // ---- OpenMP
  H("__kmpc_fork_call"){ uint64_t fa=i64(E,a[2]); DFunc*f=E.funcs.at((fa>>32)-0x40000000); std::vector<Val> ar(a+3,a+n); t.fr.back().pc++; E.startTeam(t,f,ar); return 2; };
  ext["__kmpc_fork_call_if"]=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ uint64_t fa=i64(E,a[2]); DFunc*f=E.funcs.at((fa>>32)-0x40000000); int c=i32(E,a[3]); std::vector<Val> ar(a+4,a+n); t.fr.back().pc++; int sv=E.nThreads; if(!c) E.nThreads=1; E.startTeam(t,f,ar); E.nThreads=sv; return 2; };
  H("__kmpc_for_static_init_4"){ return staticInit<int32_t>(E,t,a,4); }; H("__kmpc_for_static_init_4u"){ return staticInit<uint32_t>(E,t,a,4); }; H("__kmpc_for_static_init_8"){ return staticInit<int64_t>(E,t,a,8); }; H("__kmpc_for_static_init_8u"){ return staticInit<uint64_t>(E,t,a,8); };
  ext["__kmpc_for_static_fini"]=nop; ext["__kmpc_push_num_threads"]=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ E.pushThreads=i32(E,a[2]); return 0; };
  ext["__kmpc_serialized_parallel"]=nop; ext["__kmpc_end_serialized_parallel"]=nop; ext["__kmpc_flush"]=nop; ext["__kmpc_end_master"]=nop; ext["__kmpc_end_single"]=nop; ext["__kmpc_push_proc_bind"]=nop; ext["__kmpc_end_masked"]=nop;
  H("__kmpc_global_thread_num"){ ret=VI(t.tid,32); return 0; };
  H("__kmpc_barrier"){ if(!t.team||t.nth==1) return 0; Team*tm=t.team; tm->arrived++; if(tm->arrived==tm->n){ tm->arrived=0; tm->phase=E.phaseCtr++; for(auto&w:E.threads) if(w->team==tm&&w->st==Thread::BARRIER) w->st=Thread::RUN; return 0; } t.fr.back().pc++; t.st=Thread::BARRIER; t.what="an OpenMP barrier"; return 2; };
  H("__kmpc_reduce_nowait"){ uint64_t k=i64(E,a[6])|1; if(t.nth>1&&E.acquire(t,k)) return 1; ret=VI(1,32); return 0; }; ext["__kmpc_reduce"]=ext["__kmpc_reduce_nowait"];
  H("__kmpc_end_reduce_nowait"){ if(t.nth>1) E.release(t,i64(E,a[2])|1); return 0; };
  ext["__kmpc_end_reduce"]=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ if(t.nth>1) { uint64_t k=i64(E,a[2])|1; auto it=E.lockOwner.find(k); if(it!=E.lockOwner.end()&&it->second==t.id) E.release(t,k); } return E.ext["__kmpc_barrier"](E,t,d,a,n,ret); };
  H("__kmpc_critical"){ if(t.nth>1&&E.acquire(t,i64(E,a[2])|2)) return 1; return 0; }; H("__kmpc_end_critical"){ if(t.nth>1) E.release(t,i64(E,a[2])|2); return 0; }; ext["__kmpc_critical_with_hint"]=ext["__kmpc_critical"];
  H("__kmpc_master"){ ret=VI(t.tid==0,32); return 0; }; ext["__kmpc_masked"]=ext["__kmpc_master"];
  H("__kmpc_single"){ if(!t.team||t.nth==1){ ret=VI(1,32); return 0; } int k=t.singleCnt++; bool f=!t.team->singleTaken.count(k); t.team->singleTaken[k]=1; ret=VI(f,32); return 0; };
  auto dinit=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ int w=(E.conc(a[3]),a[3].w); if(!t.team) throw Unsup{"dispatch outside a team"}; int k=t.dispCnt; if(!t.team->disp.count(k)){ Team::Disp x; x.cur=sx(E.conc(a[3]),w); x.ub=sx(E.conc(a[4]),w); x.st=sx(E.conc(a[5]),w); x.chunk=sx(E.conc(a[6]),w); if(x.chunk<1) x.chunk=1; x.is64=w==64; t.team->disp[k]=x; } return 0; };
  for(auto*s:{"__kmpc_dispatch_init_4","__kmpc_dispatch_init_4u","__kmpc_dispatch_init_8","__kmpc_dispatch_init_8u"}) ext[s]=dinit;
  auto dnext=[](Engine&E,Thread&t,const DI&d,Val*a,int n,Val&ret)->int{ auto&x=t.team->disp[t.dispCnt]; MT m=mtInt(x.is64?8:4); bool more= x.st>0? x.cur<=x.ub : x.cur>=x.ub; if(!more){ t.dispCnt++; ret=VI(0,32); return 0; } int64_t lo=x.cur, hi=lo+(x.chunk-1)*x.st; bool last=false; if(x.st>0? hi>=x.ub:hi<=x.ub){ hi=x.ub; last=true; } x.cur=hi+x.st; E.store(i64(E,a[2]),mtInt(4),VI(last,32)); E.store(i64(E,a[3]),m,VI((uint64_t)lo,64)); E.store(i64(E,a[4]),m,VI((uint64_t)hi,64)); E.store(i64(E,a[5]),m,VI((uint64_t)x.st,64)); ret=VI(1,32); return 0; };
  for(auto*s:{"__kmpc_dispatch_next_4","__kmpc_dispatch_next_4u","__kmpc_dispatch_next_8","__kmpc_dispatch_next_8u"}) ext[s]=dnext;
  for(auto*s:{"__kmpc_dispatch_fini_4","__kmpc_dispatch_fini_8","__kmpc_dispatch_fini_4u","__kmpc_dispatch_fini_8u","__kmpc_dispatch_deinit"}) ext[s]=nop;
  H("omp_get_num_threads"){ ret=VI(t.nth,32); return 0; }; H("omp_get_thread_num"){ ret=VI(t.tid,32); return 0; }; H("omp_get_max_threads"){ ret=VI(E.nThreads,32); return 0; }; H("omp_get_num_procs"){ ret=VI(E.nThreads,32); return 0; }; H("omp_in_parallel"){ ret=VI(t.nth>1,32); return 0; };
  H("omp_set_num_threads"){ E.nThreads=i32(E,a[0]); return 0; }; H("omp_get_wtime"){ ret=VF(0); return 0; };
  H("omp_init_lock"){ E.store(i64(E,a[0]),mtInt(8),VI(1,64)); return 0; }; H("omp_destroy_lock"){ uint64_t p=i64(E,a[0]); if(E.lockOwner.count(p)) E.viol("lock-misuse","a lock is destroyed while held"); E.store(p,mtInt(8),VU()); return 0; };
  H("omp_set_lock"){ uint64_t p=i64(E,a[0]); bool tr=E.trackRace; E.trackRace=false; Val v=E.load(p,mtInt(8)); E.trackRace=tr; if(v.k==V_UNDEF) E.viol("uninitialised","an uninitialised lock is used"); return E.acquire(t,p); };
  H("omp_test_lock"){ uint64_t p=i64(E,a[0]); auto it=E.lockOwner.find(p); if(it!=E.lockOwner.end()){ ret=VI(0,32); return 0; } int r=E.acquire(t,p); ret=VI(1,32); return r; };
  H("omp_unset_lock"){ uint64_t p=i64(E,a[0]); auto it=E.lockOwner.find(p); if(it==E.lockOwner.end()||it->second!=t.id) E.viol("lock-misuse","a lock is released by a thread that does not hold it"); E.release(t,p); return 0; };
  // ---- generic atomics (double complex)
  H("__atomic_load"){ t.atomic=true; E.copyMem(i64(E,a[2]),i64(E,a[1]),i64(E,a[0])); t.atomic=false; return 0; };
  H("__atomic_store"){ t.atomic=true; E.copyMem(i64(E,a[1]),i64(E,a[2]),i64(E,a[0])); t.atomic=false; return 0; };
  H("__atomic_compare_exchange"){ uint64_t N=i64(E,a[0]),p=i64(E,a[1]),ex=i64(E,a[2]),de=i64(E,a[3]); bool eq=true; t.atomic=true; MT m=mtF(N==16?8:4); for(uint64_t o=0;o<N&&eq;o+=m.size){ Val x=E.load(p+o,m),y=E.load(ex+o,m); if(x.k==V_UNDEF||y.k==V_UNDEF) eq= x.k==y.k; else eq=E.pc.add(E.toPoly(x),E.toPoly(y),-1)->t.empty(); }
    if(eq) E.copyMem(p,de,N); else E.copyMem(ex,p,N); t.atomic=false; ret=VI(eq,1); return 0; };
  // ---- harness intrinsics
  H("sx_real"){ ret=mkReal(E,fullName(E,t,E.cstr(i64(E,a[0]))),i32(E,a[1])); return 0; };
  H("sx_int"){ ret=mkInt(E,fullName(E,t,E.cstr(i64(E,a[0]))),i32(E,a[1]),i32(E,a[2])); return 0; };
  H("sx_choice"){ std::string nm=fullName(E,t,E.cstr(i64(E,a[0]))); int k=i32(E,a[1]); if(Input*i=findInput(E,nm)){ ret=VI(i->val,32); return 0; } int c=E.choice(k); Input in; in.t='C'; in.name=nm; in.val=c; E.inputs.push_back(in); ret=VI(c,32); return 0; };
  H("sx_param"){ std::string nm=E.cstr(i64(E,a[0])); auto it=E.job->par.find(nm); int v= it==E.job->par.end()? i32(E,a[1]):it->second; ret=VI((uint64_t)(int64_t)v,32); return 0; };
  H("sx_assume"){ Val v=a[0]; bool ok; if(v.k==V_INT) ok=v.i!=0; else if(v.k==V_SYM){ z3::expr e= E.symx[v.s]!=E.zc->bv_val(0,v.w); ok=E.branchExpr(e,E.svars(v)); } else throw Unsup{"assume of undefined"}; if(!ok) throw PathEnd{"assume"}; return 0; };
  // assume that re has a sign in mask, without forking
  H("sx_assume_sign"){ const Poly*p=E.pc.norm(E.toPoly(a[0])); int m=i32(E,a[1]); int q=E.pc.quickSign(p); if(!(q&m)) throw PathEnd{"assume"}; if(q&~m) { if(!E.feasible(p,m)) throw PathEnd{"assume"}; E.addSign(p,m); } return 0; };
  H("sx_assert"){ Val v=a[0]; std::string msg=E.cstr(i64(E,a[1])); if(n>2) E.pendingDetail="index "+std::to_string(i32(E,a[2]))+","+std::to_string(i32(E,a[3])); if(v.k==V_UNDEF) E.viol("uninitialised","an observed result is uninitialised: "+msg); E.st.oblig++; if(v.k==V_INT){ if(!v.i) E.violSoft("assert",msg); else E.st.obligNF++; } else if(v.k==V_SYM){ z3::expr neg= E.symx[v.s]==E.zc->bv_val(0,v.w); auto vs=E.svars(v); E.decideNeg(neg,std::vector<int>(vs.begin(),vs.end()),false,msg); } E.pendingDetail.clear(); return 0; };
  // sx_eq(got,want,msg,i,j)
  H("sx_eq"){ std::string msg=E.cstr(i64(E,a[2])); E.pendingDetail="at ("+std::to_string(i32(E,a[3]))+","+std::to_string(i32(E,a[4]))+")"; const Poly*g=argP(E,a[0],msg.c_str()),*w=argP(E,a[1],msg.c_str()); E.pendGot=g; E.pendWant=w; eqAssert(E,g,w,msg); E.pendingDetail.clear(); E.pendGot=E.pendWant=nullptr; return 0; };
  // sx_thr(gr,gi,wr,wi,thr,cplx,msg,i,j)
  H("sx_thr"){ std::string msg=E.cstr(i64(E,a[6])); E.pendingDetail="at ("+std::to_string(i32(E,a[7]))+","+std::to_string(i32(E,a[8]))+")"; bool c=i32(E,a[5]); const Poly*gr=argP(E,a[0],msg.c_str()),*gi=c?argP(E,a[1],msg.c_str()):nullptr,*wr=argP(E,a[2],msg.c_str()),*wi=c?argP(E,a[3],msg.c_str()):nullptr,*th=argP(E,a[4],msg.c_str()); E.pendGot=gr; E.pendWant=wr; thrAssert(E,gr,gi,wr,wi,th,msg); E.pendingDetail.clear(); E.pendGot=E.pendWant=nullptr; return 0; };
  // sx_sign(value,mask,msg,i,j): the sign of value lies in mask
  H("sx_sign"){ std::string msg=E.cstr(i64(E,a[2])); E.pendingDetail="at ("+std::to_string(i32(E,a[3]))+","+std::to_string(i32(E,a[4]))+")"; const Poly*g=argP(E,a[0],msg.c_str()); E.pendGot=g; signAssert(E,g,i32(E,a[1]),msg); E.pendingDetail.clear(); E.pendGot=nullptr; return 0; };
  // 1 if the current path constraints prove sign(value) in mask (no fork)
  H("sx_known"){ const Poly*g=E.pc.norm(argP(E,a[0],"known")); int m=i32(E,a[1]); int q=E.pc.quickSign(g); bool k=!(q&~m); ret=VI(k,32); return 0; };
  H("sx_cover"){ std::string s=E.cstr(i64(E,a[0])); E.covers[s]++; return 0; };
  H("sx_observe"){ E.observed.push_back({fullName(E,t,E.cstr(i64(E,a[0]))),a[1]}); if(a[1].k==V_UNDEF) E.viol("uninitialised","an observed result is uninitialised"); return 0; };
  H("sx_native"){ ret=VI(0,32); return 0; };
  H("sx_allow_exit"){ E.allowExit=i32(E,a[0])!=0; return 0; };
  H("sx_heap_mark"){ ret=VI(E.objSeq,32); return 0; };
  H("sx_heap_live"){ long c=0; for(size_t i=E.G;i<E.objs.size();i++) if(E.objs[i]->kind==OK_HEAP&&E.objs[i]->alive&&E.objs[i]->owner==t.proc->rank) c++; ret=VI(c,32); return 0; };
  H("sx_check_leaks"){ uint32_t m=i32(E,a[0]); E.st.oblig++; E.st.obligNF++; for(size_t i=E.G;i<E.objs.size();i++){ Obj*o=E.objs[i]; if(o->kind==OK_HEAP&&o->alive&&o->seq>=m&&o->owner==t.proc->rank){ std::string w=E.loc(o->site); if(o->site) w=o->site->getFunction()->getName().str()+"@"+w; E.leakWhere=w; E.violSoft("leak","memory allocated by the call is never released"); E.leakWhere.clear(); } } return 0; };
  H("sx_file_open_count"){ long c=0; for(auto&f:E.fhs) if(f.open) c++; ret=VI(c,32); return 0; };
  H("sx_addr_ok"){ uint32_t off; Obj*o=E.find(i64(E,a[0]),off); uint64_t sz=i64(E,a[1]); ret=VI(o&&o->alive&&(uint64_t)off+sz<=o->size,32); return 0; };
  H("sx_obj_size"){ uint32_t off; Obj*o=E.find(i64(E,a[0]),off); ret=VI(o&&o->alive&&off==0?o->size:(uint64_t)-1,64); return 0; };
  // initialised status of size bytes (1 = all defined)
  H("sx_defined"){ uint32_t off; uint64_t sz=i64(E,a[1]); Obj*o=E.access(i64(E,a[0]),sz,false,off); bool ok=true; for(uint64_t i=0;i<sz;i++) if(o->tag[off+i]==0) ok=false; ret=VI(ok,32); return 0; };
  registerMpi(*this);
}
#undef H
