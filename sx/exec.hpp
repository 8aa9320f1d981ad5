// ---- decoding
bool Engine::load(const std::string&path){
  SMDiagnostic err; M=parseIRFile(path,err,lctx); if(!M){ err.print("symx",errs()); return false; } DL=&M->getDataLayout();
  for(auto&g:M->globals()){ gidx[&g]=gvars.size(); gvars.push_back(&g); } G=gvars.size();
  for(auto&F:*M){ auto*d=new DFunc; d->F=&F; d->name=F.getName().str(); d->fidx=funcs.size(); fmap[&F]=d; funcs.push_back(d); fname[d->name]=d;
    if(auto*sp=F.getSubprogram()){ std::string fn=sp->getFilename().str(); if(fn.empty()||fn[0]!='/') fn=sp->getDirectory().str()+"/"+fn; d->repo= fn.find("/verif/")==std::string::npos && fn.find("/src/")!=std::string::npos; } }
  registerExt(); locksets.push_back({}); locksetIdx[{}]=0; return true;
}
MT Engine::mty(Type*t){
  MT m; m.size=DL->getTypeStoreSize(t); m.bits=0;
  if(t->isIntegerTy()){ m.k=MT::INT; m.bits=t->getIntegerBitWidth(); if(m.bits>64) throw Unsup{"int wider than 64"}; }
  else if(t->isPointerTy()){ m.k=MT::PTR; m.bits=64; }
  else if(t->isFloatTy()) m.k=MT::F32; else if(t->isDoubleTy()) m.k=MT::F64;
  else if(auto*v=dyn_cast<FixedVectorType>(t)){ m.k=MT::AGGR; unsigned es=DL->getTypeStoreSize(v->getElementType()); for(unsigned i=0;i<v->getNumElements();i++){ m.el.push_back(mty(v->getElementType())); m.off.push_back(i*es);} }
  else if(auto*s=dyn_cast<StructType>(t)){ m.k=MT::AGGR; auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++){ m.el.push_back(mty(s->getElementType(i))); m.off.push_back(sl->getElementOffset(i)); } }
  else if(auto*a=dyn_cast<ArrayType>(t)){ m.k=MT::AGGR; unsigned es=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++){ m.el.push_back(mty(a->getElementType())); m.off.push_back(i*es);} }
  else if(t->isVoidTy()) { m.k=MT::INT; m.size=0; }
  else throw Unsup{"memory type"};
  return m;
}
Val Engine::constant(const Constant*c,int&g){
  g=-1;
  if(auto*i=dyn_cast<ConstantInt>(c)) return VI(i->getValue().getZExtValue(),i->getBitWidth());
  if(auto*f=dyn_cast<ConstantFP>(c)){ APFloat a=f->getValueAPF(); bool l; a.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return VF(a.convertToDouble()); }
  if(isa<ConstantPointerNull>(c)) return VI(0,64);
  if(isa<UndefValue>(c)) { if(c->getType()->isVectorTy()||c->getType()->isStructTy()){ auto*a=new Agg; unsigned n= c->getType()->isVectorTy()?cast<FixedVectorType>(c->getType())->getNumElements():c->getType()->getStructNumElements(); for(unsigned i=0;i<n;i++) a->v.push_back(VU()); aggsPersist.emplace_back(a); return VA(a);} return VU(); }
  if(auto*gv=dyn_cast<GlobalVariable>(c)) return VI(addrOf(gidx[gv]),64);
  if(auto*F=dyn_cast<Function>(c)) return VI(((uint64_t)0x40000000+fmap[F]->fidx)<<32,64);
  if(auto*ca=dyn_cast<ConstantAggregateZero>(c)){ auto*a=new Agg; aggsPersist.emplace_back(a); unsigned n=ca->getElementCount().getFixedValue(); for(unsigned i=0;i<n;i++){ int gg; a->v.push_back(constant(ca->getElementValue(i),gg)); } return VA(a); }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ auto*a=new Agg; aggsPersist.emplace_back(a); for(unsigned i=0;i<cd->getNumElements();i++){ int gg; a->v.push_back(constant(cd->getElementAsConstant(i),gg)); } return VA(a); }
  if(auto*cv=dyn_cast<ConstantAggregate>(c)){ auto*a=new Agg; aggsPersist.emplace_back(a); for(unsigned i=0;i<cv->getNumOperands();i++){ int gg; a->v.push_back(constant(cv->getOperand(i),gg)); } return VA(a); }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    if(e->getOpcode()==Instruction::GetElementPtr){ int gg; Val b=constant(e->getOperand(0),gg); APInt o(64,0); if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL,o)) throw Unsup{"constexpr gep"}; return VI(b.i+o.getSExtValue(),64); }
    if(e->isCast()){ int gg; Val b=constant(e->getOperand(0),gg); if(b.k==V_INT) return VI(b.i,DL->getTypeSizeInBits(e->getType())); }
  }
  throw Unsup{"constant kind"};
}
Opd Engine::opd(const Value*v,std::unordered_map<const Value*,int>&sl){
  Opd o; if(auto*c=dyn_cast<Constant>(v)){ int g; o.c=constant(c,g); return o; }
  auto it=sl.find(v); if(it!=sl.end()){ o.slot=it->second; return o; }
  if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)) { o.c=VU(); return o; }
  throw Unsup{"operand"};
}
static uint8_t ibits(Type*t,const DataLayout*DL){ if(t->isIntegerTy()) return std::min(64u,t->getIntegerBitWidth()); if(t->isPointerTy()) return 64; return 0; }
void Engine::decode(DFunc*f){
  f->decoded=true; Function&F=*f->F; std::unordered_map<const Value*,int> sl; int n=0; for(auto&a:F.args()) sl[&a]=n++; f->nargs=n;
  std::unordered_map<const BasicBlock*,int> bi; int b=0; for(auto&B:F){ bi[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) sl[&I]=n++; }
  f->nslots=n; f->bbs.resize(b); b=0;
  for(auto&B:F){ DBlock&db=f->bbs[b++];
    for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
      DI d; d.I=&I; d.op=OP_NOP; if(!I.getType()->isVoidTy()) d.dst=sl[&I]; d.w=ibits(I.getType(),DL);
      // padding that SROA inserts around a narrower stored value (captured variables): read as zero
      bool pad=I.getName().contains(".sroa.")&&I.getName().contains(".insert."); 
      auto ops=[&](std::initializer_list<const Value*> l){ for(auto*v:l){ Opd o=opd(v,sl); if(pad&&isa<UndefValue>(v)) o.c=VI(0,ibits(v->getType(),DL)); d.ops.push_back(o); } };
      if(auto*bo=dyn_cast<BinaryOperator>(&I)){ ops({I.getOperand(0),I.getOperand(1)}); if(I.getType()->isVectorTy()) throw Unsup{"vector binop"};
        switch(bo->getOpcode()){ case Instruction::Add:d.op=OP_ADD;break; case Instruction::Sub:d.op=OP_SUB;break; case Instruction::Mul:d.op=OP_MUL;break; case Instruction::UDiv:d.op=OP_UDIV;break; case Instruction::SDiv:d.op=OP_SDIV;break; case Instruction::URem:d.op=OP_UREM;break; case Instruction::SRem:d.op=OP_SREM;break; case Instruction::Shl:d.op=OP_SHL;break; case Instruction::LShr:d.op=OP_LSHR;break; case Instruction::AShr:d.op=OP_ASHR;break; case Instruction::And:d.op=OP_AND;break; case Instruction::Or:d.op=OP_OR;break; case Instruction::Xor:d.op=OP_XOR;break; case Instruction::FAdd:d.op=OP_FADD;break; case Instruction::FSub:d.op=OP_FSUB;break; case Instruction::FMul:d.op=OP_FMUL;break; case Instruction::FDiv:d.op=OP_FDIV;break; default: throw Unsup{"binop"}; }
        if(auto*ob=dyn_cast<OverflowingBinaryOperator>(bo)){ d.nsw=ob->hasNoSignedWrap(); d.nuw=ob->hasNoUnsignedWrap(); } }
      else if(isa<UnaryOperator>(I)){ d.op=OP_FNEG; ops({I.getOperand(0)}); }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ d.op=OP_ICMP; d.pred=c->getPredicate(); d.w2=ibits(I.getOperand(0)->getType(),DL); ops({I.getOperand(0),I.getOperand(1)}); }
      else if(auto*c=dyn_cast<FCmpInst>(&I)){ d.op=OP_FCMP; d.pred=c->getPredicate(); ops({I.getOperand(0),I.getOperand(1)}); }
      else if(auto*a=dyn_cast<AllocaInst>(&I)){ d.op=OP_ALLOCA; d.esz=DL->getTypeAllocSize(a->getAllocatedType()); ops({a->getArraySize()}); }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ d.op=OP_LOAD; d.mt=mty(I.getType()); d.pred=l->isAtomic(); ops({l->getPointerOperand()}); }
      else if(auto*s=dyn_cast<StoreInst>(&I)){ d.op=OP_STORE; d.mt=mty(s->getValueOperand()->getType()); d.pred=s->isAtomic(); ops({s->getValueOperand(),s->getPointerOperand()}); }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ d.op=OP_GEP; d.ops.push_back(opd(g->getPointerOperand(),sl)); 
        for(auto gi=gep_type_begin(g);gi!=gep_type_end(g);++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ d.gepOff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { uint64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) d.gepOff+=sz*ci->getSExtValue(); else { d.gepIdx.push_back({(int)d.ops.size(),sz}); d.ops.push_back(opd(ix,sl)); } } } }
      else if(auto*c=dyn_cast<CastInst>(&I)){ ops({I.getOperand(0)}); d.w2=ibits(I.getOperand(0)->getType(),DL);
        switch(c->getOpcode()){ case Instruction::Trunc:d.op=OP_TRUNC;break; case Instruction::ZExt:d.op=OP_ZEXT;break; case Instruction::SExt:d.op=OP_SEXT;break; case Instruction::FPTrunc:d.op=OP_FPTRUNC;break; case Instruction::FPExt:d.op=OP_FPEXT;break; case Instruction::FPToSI:d.op=OP_FPTOSI;break; case Instruction::FPToUI:d.op=OP_FPTOUI;break; case Instruction::SIToFP:d.op=OP_SITOFP; d.pred=I.getType()->isFloatTy(); break; case Instruction::UIToFP:d.op=OP_UITOFP;break; case Instruction::PtrToInt:d.op=OP_ZEXT;break; case Instruction::IntToPtr:d.op=OP_ZEXT;break; case Instruction::BitCast:d.op=OP_BITCAST; d.mt=mty(I.getType()); d.pred=I.getOperand(0)->getType()->isFloatTy()?1:0; break; default: throw Unsup{"cast"}; } }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ d.op=OP_CBR; ops({br->getCondition()}); d.bbs[0]=bi[br->getSuccessor(0)]; d.bbs[1]=bi[br->getSuccessor(1)]; } else { d.op=OP_BR; d.bbs[0]=bi[br->getSuccessor(0)]; } }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ d.op=OP_SWITCH; ops({sw->getCondition()}); d.bbs[0]=bi[sw->getDefaultDest()]; for(auto&cs:sw->cases()) d.cases.push_back({cs.getCaseValue()->getZExtValue(),bi[cs.getCaseSuccessor()]}); }
      else if(isa<ReturnInst>(I)){ d.op=OP_RET; if(I.getNumOperands()) ops({I.getOperand(0)}); }
      else if(isa<UnreachableInst>(I)) d.op=OP_UNREACH;
      else if(auto*s=dyn_cast<SelectInst>(&I)){ d.op=OP_SELECT; ops({s->getCondition(),s->getTrueValue(),s->getFalseValue()}); }
      else if(auto*e=dyn_cast<ExtractValueInst>(&I)){ d.op=OP_EXTRV; d.idx.assign(e->idx_begin(),e->idx_end()); ops({I.getOperand(0)}); }
      else if(auto*e=dyn_cast<InsertValueInst>(&I)){ d.op=OP_INSV; d.idx.assign(e->idx_begin(),e->idx_end()); ops({I.getOperand(0),I.getOperand(1)}); d.mt=mty(I.getType()); }
      else if(isa<ExtractElementInst>(I)){ d.op=OP_EXTRE; ops({I.getOperand(0),I.getOperand(1)}); d.mt=mty(I.getOperand(0)->getType()); }
      else if(isa<InsertElementInst>(I)){ d.op=OP_INSE; ops({I.getOperand(0),I.getOperand(1),I.getOperand(2)}); d.mt=mty(I.getType()); }
      else if(auto*s=dyn_cast<ShuffleVectorInst>(&I)){ d.op=OP_SHUF; for(int m:s->getShuffleMask()) d.mask.push_back(m); ops({I.getOperand(0),I.getOperand(1)}); d.mt=mty(I.getOperand(0)->getType()); }
      else if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)){ d.op=OP_CMPXCHG; d.mt=mty(x->getNewValOperand()->getType()); ops({x->getPointerOperand(),x->getCompareOperand(),x->getNewValOperand()}); }
      else if(auto*x=dyn_cast<AtomicRMWInst>(&I)){ d.op=OP_ARMW; d.pred=x->getOperation(); d.mt=mty(I.getType()); ops({x->getPointerOperand(),x->getValOperand()}); }
      else if(isa<FenceInst>(I)) d.op=OP_FENCE;
      else if(isa<FreezeInst>(I)){ d.op=OP_FREEZE; ops({I.getOperand(0)}); }
      else if(auto*c=dyn_cast<CallBase>(&I)){
        for(unsigned i=0;i<c->arg_size();i++) d.ops.push_back(opd(c->getArgOperand(i),sl));
        Value*cv=c->getCalledOperand()->stripPointerCasts();
        if(auto*CF=dyn_cast<Function>(cv)){ d.op=OP_CALL; d.callee=fmap[CF]; d.name=d.callee->name;
          std::string nm=d.name; if(nm.rfind("llvm.",0)==0){ // intrinsic: strip type suffix
            static const char*pre[]={"llvm.is.fpclass","llvm.memcpy","llvm.memmove","llvm.memset","llvm.stacksave","llvm.stackrestore","llvm.va_start","llvm.va_end","llvm.lifetime","llvm.fabs","llvm.sqrt","llvm.assume","llvm.expect","llvm.smax","llvm.smin","llvm.umax","llvm.umin","llvm.abs","llvm.is.constant","llvm.objectsize","llvm.trap","llvm.fmuladd","llvm.copysign","llvm.va_copy","llvm.floor","llvm.ceil","llvm.maxnum","llvm.minnum"};
            for(auto*p:pre) if(nm.rfind(p,0)==0){ nm=p; break; } }
          auto it=ext.find(nm); bool force= nm.rfind("sx_",0)==0; if(it!=ext.end()&&(CF->isDeclaration()||force)) d.h=it->second; }
        else { d.op=OP_ICALL; d.ops.push_back(opd(cv,sl)); } }
      else throw Unsup{std::string("instruction ")+I.getOpcodeName()};
      if(I.isTerminator()){ // phi copies per successor index
        std::vector<const BasicBlock*> succ; for(unsigned i=0;i<I.getNumSuccessors();i++) succ.push_back(I.getSuccessor(i));
        // order: BR/CBR: 0,1 ; SWITCH: default=0, cases 1..
        for(auto*S:succ){ std::vector<PhiCopy> pcs; for(auto&P:S->phis()){ PhiCopy c; c.dst=sl[&P]; c.src=opd(P.getIncomingValueForBlock(&B),sl); pcs.push_back(c);} d.phis.push_back(pcs); }
      }
      db.ins.push_back(std::move(d));
    } }
}
// ---- memory
Obj* Engine::globalObj(int g){
  Proc*p= cur? cur->proc : procs[0].get(); Obj*&o=p->globals[g]; if(o) return o;
  GlobalVariable*gv=gvars[g]; uint64_t sz=DL->getTypeAllocSize(gv->getValueType()); o=newObj(sz,OK_GLOBAL,true); 
  { std::string gn=gv->getName().str(); if(!gv->hasInitializer()){ uint64_t k= gn=="stdout"?0:gn=="stderr"?1:gn=="stdin"?2:9; if(k==9) throw Unsup{"access to external global "+gn}; uint64_t v=(0x3ffffff0ull+k)<<32; memcpy(&o->data[0],&v,8); } }
  if(gv->hasInitializer()){
    bool saved=persist; 
    std::function<void(const Constant*,uint32_t)> wr=[&](const Constant*c,uint32_t off){
      if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
      if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef s=cd->getRawDataValues(); memcpy(&o->data[off],s.data(),s.size()); return; }
      if(auto*ca=dyn_cast<ConstantAggregate>(c)){ Type*t=c->getType(); for(unsigned i=0;i<ca->getNumOperands();i++){ uint32_t eo; if(auto*st=dyn_cast<StructType>(t)) eo=DL->getStructLayout(st)->getElementOffset(i); else if(auto*at=dyn_cast<ArrayType>(t)) eo=i*DL->getTypeAllocSize(at->getElementType()); else eo=i*DL->getTypeAllocSize(cast<FixedVectorType>(t)->getElementType()); wr(cast<Constant>(ca->getOperand(i)),off+eo);} return; }
      int gg; Val v=constant(c,gg); MT m=mty(c->getType());
      if(m.k==MT::F32){ float f=v.d; memcpy(&o->data[off],&f,4);} else if(m.k==MT::F64) memcpy(&o->data[off],&v.d,8); else memcpy(&o->data[off],&v.i,m.size);
    };
    wr(gv->getInitializer(),0); persist=saved;
  }
  o->ro=gv->isConstant();
  return o;
}
Obj* Engine::access(uint64_t a,uint64_t size,bool wr,uint32_t&off){
  Obj*o=find(a,off);
  if(!o){ if((a>>32)==0) viol("null-deref",std::string(wr?"write":"read")+" through a null or invalid pointer"); viol("invalid-pointer",std::string(wr?"write":"read")+" through an invalid pointer"); }
  if(!o->alive) viol("use-after-free",std::string(wr?"write to":"read of")+" freed or out-of-scope memory");
  if((uint64_t)off+size>o->size) viol("out-of-bounds",std::string(wr?"write":"read")+" of "+std::to_string(size)+" bytes at offset "+std::to_string((int32_t)off)+" of a "+std::to_string(o->size)+"-byte object");
  if(wr&&o->ro) viol("write-to-constant","write to constant memory");
  if(trackRace&&cur&&cur->nth>1) race(o,off,size,wr);
  return o;
}
void Engine::race(Obj*o,uint32_t off,uint32_t size,bool wr){
  int t=cur->tid; if(t>=8) return; int ls=cur->lockset; if(cur->atomic){ auto l=locksets[ls]; l.push_back(-1); ls=lockset(l); }
  uint32_t ph=cur->team->phase; uint32_t step=size>=4?4:1;
  for(uint32_t b=off;b<off+size;b+=step){
    uint32_t key=size>=4?(b&~3u):(b|0x80000000u);
    auto&r=o->sh[key]; if(r.phase!=ph){ r.phase=ph; r.wt=0; r.rmask=0; r.wl=0; }
    // wt: bitmask of writers; rl[u]: lockset of reads; use rl for both (low: read, writes stored separately in wl via combined lockset)
    uint16_t wmask=(uint16_t)r.wt;
    for(int u=0;u<8;u++){ if(u==t) continue; bool uw=wmask&(1<<u), ur=r.rmask&(1<<u); if((uw||(wr&&ur))&&disjoint(r.rl[u],ls)){ st.races++; r.wt=0; r.rmask=0;
        violSoft("data-race",std::string("two threads access the same memory without synchronisation (")+(wr?"write":"read")+" in thread "+std::to_string(t)+" vs "+(uw?"write":"read")+" in thread "+std::to_string(u)+")"); throw PathEnd{"race"}; } }
    uint16_t bit=1<<t; bool had=(wmask|r.rmask)&bit;
    if(had){ if(r.rl[t]!=ls){ std::vector<int> in; for(int x:locksets[r.rl[t]]) for(int y:locksets[ls]) if(x==y) in.push_back(x); r.rl[t]=lockset(in);} } else r.rl[t]=ls;
    if(wr) r.wt|=bit; else r.rmask|=bit;
  }
}
void Engine::killCells(Obj*o,uint32_t off,uint32_t size){
  if(o->cells.empty()) return;
  auto it=o->cells.lower_bound(off>16?off-16:0);
  while(it!=o->cells.end()&&it->first<off+size){
    uint32_t cs=it->first; uint32_t e=cs+1; while(e<o->size&&o->tag[e]==3) e++;
    if(e<=off){ ++it; continue; }
    for(uint32_t b=cs;b<e;b++) o->tag[b]=0; // partially overwritten symbolic cell: remaining bytes become unknown
    it=o->cells.erase(it);
  }
}
static void putBytes(Obj*o,uint32_t off,const void*p,uint32_t n){ memcpy(&o->data[off],p,n); memset(&o->tag[off],1,n); }
void Engine::store(uint64_t a,const MT&t,Val v){
  uint32_t off; Obj*o=access(a,t.size,true,off);
  if(v.k==V_AGG){
    if(t.k==MT::AGGR){ for(size_t i=0;i<t.el.size();i++) store(a+t.off[i],t.el[i],v.a->v[i]); return; }
    if(v.a->packed){ killCells(o,off,t.size); memset(&o->tag[off],0,t.size); for(size_t i=0;i<v.a->v.size();i++){ MT m; m.k=MT::F32; uint32_t sz=(i+1<v.a->v.size()?v.a->off[i+1]:v.a->size)-v.a->off[i]; m.size=sz; m.bits=sz*8; if(v.a->v[i].k==V_INT) m.k=MT::INT; else m.k= sz==8?MT::F64:MT::F32; store(a+v.a->off[i],m,v.a->v[i]); } return; }
    throw Unsup{"aggregate store"};
  }
  if(t.k==MT::AGGR){ if(v.k==V_UNDEF){ killCells(o,off,t.size); memset(&o->tag[off],0,t.size); return; } throw Unsup{"scalar into aggregate store"}; }
  killCells(o,off,t.size);
  switch(v.k){
    case V_UNDEF: memset(&o->tag[off],0,t.size); return;
    case V_INT: { uint64_t x=v.i; putBytes(o,off,&x,t.size); return; }
    case V_FLT:
      if(t.k==MT::F32||t.size==4){ float f=(float)v.d; if((double)f==v.d){ putBytes(o,off,&f,4); return; } }
      else { putBytes(o,off,&v.d,8); return; }
      break;
    default: break;
  }
  o->tag[off]=2; for(uint32_t i=1;i<t.size;i++) o->tag[off+i]=3; o->cells[off]=v;
}
Val Engine::load(uint64_t a,const MT&t){
  if(t.k==MT::AGGR){ Agg*g=new Agg; aggs.emplace_back(g); for(size_t i=0;i<t.el.size();i++) g->v.push_back(load(a+t.off[i],t.el[i])); return VA(g); }
  uint32_t off; Obj*o=access(a,t.size,false,off); if(t.size==0) return VU();
  const uint8_t*tg=&o->tag[off]; bool allc=true,anyu=false,anys=false; for(uint32_t i=0;i<t.size;i++){ if(tg[i]!=1) allc=false; if(tg[i]==0) anyu=true; if(tg[i]>=2) anys=true; }
  if(allc){ 
    if(t.k==MT::F32){ float f; memcpy(&f,&o->data[off],4); return VF(f);} if(t.k==MT::F64){ double d; memcpy(&d,&o->data[off],8); return VF(d);} 
    uint64_t x=0; memcpy(&x,&o->data[off],t.size); return VI(x,t.bits); }
  if(tg[0]==2){ Val v=o->cells[off]; bool ok=true; for(uint32_t i=1;i<t.size;i++) if(tg[i]!=3) ok=false; if(off+t.size<o->size&&o->tag[off+t.size]==3) ok=false;
    if(ok) return v; }
  if(anys){
    // several cells inside (e.g. complex float moved as i64): pack
    if(t.size==8&&(t.k==MT::INT||t.k==MT::F64)){ bool good=true; for(int h=0;h<2&&good;h++){ const uint8_t*q=tg+4*h; if(q[0]==3) good=false; for(int i=1;i<4;i++) if((q[0]==2)!=(q[i]==3)) good=false; } if(off+8<o->size&&o->tag[off+8]==3) good=false;
      if(good){ Agg*g=new Agg; aggs.emplace_back(g); g->packed=true; g->size=8; MT m; m.k=MT::F32; m.size=4; m.bits=32; for(int h=0;h<2;h++){ g->off.push_back(4*h); g->v.push_back(load(a+4*h,m)); } return VA(g); } }
    viol("type-confusion","a symbolic floating-point value is read with a different size or type than it was written with");
  }
  (void)anyu; return VU();
}
void Engine::copyMem(uint64_t d,uint64_t s,uint64_t n){
  if(n==0) return; uint32_t so,dof; Obj*src=access(s,n,false,so); Obj*dst=access(d,n,true,dof);
  std::vector<uint8_t> data(src->data.begin()+so,src->data.begin()+so+n), tag(src->tag.begin()+so,src->tag.begin()+so+n);
  std::vector<std::pair<uint32_t,Val>> cells; for(auto it=src->cells.lower_bound(so);it!=src->cells.end()&&it->first<so+n;++it) cells.push_back({it->first-so,it->second});
  // cells cut at the borders become uninitialised
  uint64_t i=0; while(i<n&&tag[i]==3){ tag[i]=0; i++; }
  if(so+n<src->size&&src->tag[so+n]==3){ // last cell cut
    if(!cells.empty()){ for(uint64_t b=cells.back().first;b<n;b++) tag[b]=0; cells.pop_back(); } }
  killCells(dst,dof,n);
  memcpy(&dst->data[dof],data.data(),n); memcpy(&dst->tag[dof],tag.data(),n); for(auto&c:cells) dst->cells[dof+c.first]=c.second;
}
void Engine::setMem(uint64_t d,int c,uint64_t n){ if(n==0) return; uint32_t off; Obj*o=access(d,n,true,off); killCells(o,off,n); memset(&o->data[off],c,n); memset(&o->tag[off],1,n); }
std::string Engine::cstr(uint64_t a){ std::string s; for(;;){ uint32_t off; Obj*o=access(a,1,false,off); if(o->tag[off]!=1) viol("uninitialised","string contains uninitialised bytes"); char c=o->data[off]; if(!c) break; s+=c; a++; if(s.size()>100000) break; } return s; }
void Engine::freeHeap(uint64_t a,const char*what){
  if(a==0) return; uint32_t off; uint32_t idx; Obj*o=find(a,off,&idx);
  if(!o) viol("bad-free","free of an invalid pointer"); 
  if(o->kind!=OK_HEAP) viol("bad-free","free of memory not obtained from the allocator");
  if(!o->alive) viol("double-free","memory freed twice");
  if(off!=0) viol("bad-free","free of a pointer into the middle of an allocation");
  if(trackRace&&cur&&cur->nth>1&&o->size>0) race(o,0,o->size>64?64:o->size,true);
  o->alive=false; live--; o->data.clear(); o->tag.clear(); o->data.shrink_to_fit(); o->tag.shrink_to_fit(); o->cells.clear(); o->sh.clear();
}
// ---- floats
Val Engine::fneg(const Val&a){ if(a.k==V_UNDEF) return a; if(a.k==V_FLT) return VF(-a.d); return fromPoly(pc.scale(toPoly(a),Q(-1))); }
Val Engine::farith(int op,const Val&a,const Val&b){
  if(a.k==V_UNDEF||b.k==V_UNDEF) return VU();
  if(a.k==V_FLT&&b.k==V_FLT){
    double x=a.d,y=b.d;
    if(op==OP_FADD||op==OP_FSUB){ if(op==OP_FSUB) y=-y; double s=x+y; double bb=s-x; double e=(x-(s-bb))+(y-bb); if(e==0&&std::isfinite(s)) return VF(s); }
    else { double p=x*y; if(std::isfinite(p)&&fma(x,y,-p)==0&&(p==0?(x==0||y==0):std::fabs(p)>1e-290)) return VF(p); }
  }
  if(op==OP_FMUL){ if(a.k==V_FLT&&a.d==0) return VF(0.0); if(b.k==V_FLT&&b.d==0) return VF(0.0); if(a.k==V_FLT&&a.d==1) return b; if(b.k==V_FLT&&b.d==1) return a; return fromPoly(pc.mul(toPoly(a),toPoly(b))); }
  if(b.k==V_FLT&&b.d==0) return a; if(op==OP_FADD&&a.k==V_FLT&&a.d==0) return b;
  const Poly*r=pc.add(toPoly(a),toPoly(b),op==OP_FADD?1:-1); if(r->t.size()>4000) throw Unsup{"expression too large"}; return fromPoly(r);
}
Val Engine::fdivv(const Val&a,const Val&b){
  if(a.k==V_UNDEF||b.k==V_UNDEF) return VU();
  const Poly*y=pc.norm(toPoly(b)); if(y->t.empty()) throw PathEnd{"division by zero (outside the exact-arithmetic claim)"};
  int m=pc.quickSign(y); if(m&S_ZERO){ // restrict to nonzero divisor (IEEE inf/nan is outside the claim)
    if(!branchSign(y,S_NEG|S_POS)) throw PathEnd{"division by zero (outside the exact-arithmetic claim)"}; y=pc.norm(y); }
  if(a.k==V_FLT&&b.k==V_FLT){ double q=a.d/b.d; if(std::isfinite(q)&&fma(q,b.d,-a.d)==0&&std::fabs(q)>1e-290) return VF(q); if(a.d==0) return VF(0); }
  const Poly*r=pc.div(toPoly(a),y); return fromPoly(r);
}
Val Engine::fabsv(const Val&a){ if(a.k==V_UNDEF) return a; if(a.k==V_FLT) return VF(std::fabs(a.d)); return fromPoly(pc.absP(pc.norm(toPoly(a)))); }
Val Engine::fsqrtv(const Val&a){ if(a.k==V_UNDEF) return a; const Poly*p=pc.norm(toPoly(a)); int m=pc.quickSign(p); if(m==S_NEG) throw PathEnd{"sqrt of negative (NaN, outside the claim)"}; if(m&S_NEG){ if(!branchSign(p,S_ZERO|S_POS)) throw PathEnd{"sqrt of negative (NaN, outside the claim)"}; } return fromPoly(pc.sqrtP(p)); }
bool Engine::fcmp(int pred,const Val&a,const Val&b){
  if(pred==FCmpInst::FCMP_UNO) { return false; } if(pred==FCmpInst::FCMP_ORD) return true; if(pred==FCmpInst::FCMP_TRUE) return true; if(pred==FCmpInst::FCMP_FALSE) return false;
  if(a.k==V_UNDEF||b.k==V_UNDEF) viol("uninitialised","comparison depends on an uninitialised value");
  int T=0; switch(pred){ case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: T=S_ZERO; break; case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: T=S_POS; break; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: T=S_POS|S_ZERO; break; case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: T=S_NEG; break; case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: T=S_NEG|S_ZERO; break; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: T=S_NEG|S_POS; break; default: throw Unsup{"fcmp"}; }
  if(a.k==V_FLT&&b.k==V_FLT){ int s=a.d<b.d?S_NEG:a.d>b.d?S_POS:S_ZERO; return s&T; }
  return branchSign(pc.norm(pc.add(toPoly(a),toPoly(b),-1)),T);
}
// ---- solver
z3::expr Engine::zatom(int a){
  Atom&A=pc.atoms[a];
  switch(A.k){
    case Atom::VAR: case Atom::I2R: { z3::expr v=zc->real_const(A.name.c_str()); if(A.sgn!=S_ANY&&!sideOf.count(a)){ sideOf[a]=sides.size(); z3::expr z=zc->real_val(0); z3::expr c= A.sgn==S_POS? v>z : A.sgn==S_NEG? v<z : A.sgn==(S_POS|S_ZERO)? v>=z : A.sgn==(S_NEG|S_ZERO)? v<=z : A.sgn==S_ZERO? v==z : v!=z; sides.push_back({c,0}); } return v; }
    case Atom::ABS: { z3::expr q=zpoly(A.arg); return z3::ite(q>=0,q,-q); }
    case Atom::SQRT: { z3::expr v=zc->real_const(("sq!"+A.name).c_str()); if(!sideOf.count(a)){ sideOf[a]=0; z3::expr q=zpoly(A.arg); sides.push_back({v>=0&&v*v==q,1}); } return v; }
    case Atom::DEF: return zpoly(A.arg);
  }
  return zc->real_val(0);
}
z3::expr Engine::zpoly(const Poly*p){
  if(p->t.empty()) return zc->real_val(0);
  z3::expr_vector sum(*zc);
  for(auto&x:p->t){
    z3::expr_vector prod(*zc); if(x.second!=1||x.first==0) prod.push_back(zq(x.second));
    for(auto&ae:pc.monos[x.first]){ z3::expr e=zatom(ae.first); for(int i=0;i<std::abs(ae.second);i++) if(ae.second>0) prod.push_back(e); else {
        // 1/e as fresh constant r with r*e==1
        z3::expr r=zc->real_const(("inv!"+std::to_string(ae.first)).c_str()); int k=-1000-ae.first; if(!sideOf.count(k)){ sideOf[k]=0; sides.push_back({r*e==1,1}); } prod.push_back(r); } }
    if(prod.size()==1) sum.push_back(prod[0]); else { Z3_ast*av=new Z3_ast[prod.size()]; for(unsigned i=0;i<prod.size();i++) av[i]=prod[i]; sum.push_back(z3::expr(*zc,Z3_mk_mul(*zc,prod.size(),av))); delete[] av; }
  }
  if(sum.size()==1) return sum[0]; return z3::sum(sum);
}
z3::expr Engine::signExpr(const Poly*p,int m){
  sides.clear(); sideOf.clear(); z3::expr e=zpoly(p); z3::expr z=zc->real_val(0);
  z3::expr r= m==S_POS? e>z : m==S_NEG? e<z : m==S_ZERO? e==z : m==(S_POS|S_ZERO)? e>=z : m==(S_NEG|S_ZERO)? e<=z : m==(S_NEG|S_POS)? e!=z : zc->bool_val(m!=0);
  for(auto&s:sides) r= r && s.first; return r;
}
// ---- witnesses
Q Engine::randQ(int sgn){ if(sgn==S_ZERO) return Q(0); uint64_t r=rnd(); if((sgn&S_ZERO)&&r%4==0) return Q(0); Q v((long)(1+(rnd()%7))); if(r%3==0) v/=2; bool neg=(sgn&S_NEG)&&(!(sgn&S_POS)||(rnd()&1)); return neg?Q(-v):v; }
const Q& Engine::witVal(Wit&w,int vid,int sgn){ static const Q unset("-123456789123456789/7"); while((int)w.size()<=vid) w.push_back(unset); if(w[vid]==unset) w[vid]=randQ(sgn); return w[vid]; }
bool Engine::evalQ(const Poly*p,Wit&w,Q&out){
  Q s(0); for(auto&x:p->t){ Q t=x.second; for(auto&ae:pc.monos[x.first]){ Atom&A=pc.atoms[ae.first]; Q b; switch(A.k){ case Atom::VAR: b=witVal(w,A.vid,A.sgn); break; case Atom::I2R: return false; default: if(!evalQ(A.arg,w,b)) return false; if(A.k==Atom::ABS) b=abs(b); else if(A.k==Atom::SQRT){ if(b<0) return false; if(!(mpz_perfect_square_p(b.get_num().get_mpz_t())&&mpz_perfect_square_p(b.get_den().get_mpz_t()))) return false; b=Q(sqrt(b.get_num()),sqrt(b.get_den())); } }
      int e=ae.second; if(e<0){ if(b==0) return false; b=1/b; e=-e; } for(int i=0;i<e;i++) t*=b; } s+=t; } out=s; return true; }
static bool evalW(Engine&E,const Poly*p,Wit&w,double&out,double&mag){
  double s=0,m=0; for(auto&x:p->t){ double t=x.second.get_d(); for(auto&ae:E.pc.monos[x.first]){ Atom&A=E.pc.atoms[ae.first]; double b,bm; if(A.k==Atom::VAR) b=E.witVal(w,A.vid,A.sgn).get_d(); else if(A.k==Atom::I2R) return false; else { if(!evalW(E,A.arg,w,b,bm)) return false; if(bm>0&&std::fabs(b)<1e-7*bm) return false; if(A.k==Atom::ABS) b=std::fabs(b); else if(A.k==Atom::SQRT){ if(b<0) return false; b=std::sqrt(b); } } if(ae.second<0&&b==0) return false; t*=std::pow(b,ae.second); } s+=t; m+=std::fabs(t); } out=s; mag=m; return true; }
int Engine::witSign(const Poly*p,Wit&w){ Q q; if(evalQ(p,w,q)) return q>0?S_POS:q<0?S_NEG:S_ZERO; double d,m; if(evalW(*this,p,w,d,m)&&std::isfinite(d)&&std::fabs(d)>1e-6*m) return d>0?S_POS:S_NEG; return 0; }
bool Engine::witOk(Wit&w){ for(size_t i=wcons.size();i-->0;) if(!(witSign(wcons[i].first,w)&wcons[i].second)) return false; return true; }
void Engine::witFilter(const Poly*d,int mask){ wcons.push_back({d,mask}); size_t k=0; for(size_t i=0;i<pool_.size();i++) if(witSign(d,pool_[i])&mask){ if(k!=i) std::swap(pool_[k],pool_[i]); k++; } pool_.resize(k); }
// move a witness onto the wanted side by changing one variable that occurs linearly
bool Engine::witSearch(const Poly*d,int mask,Wit&out,int tries){
  std::set<int> vs; pc.closure(d,vs); std::vector<int> at; for(size_t a=0;a<pc.atoms.size();a++) if(pc.atoms[a].k==Atom::VAR&&vs.count(pc.atoms[a].vid)&&!pc.subst.count(a)) at.push_back(a);
  if(!at.empty()&&!pool_.empty()) for(int t=0;t<tries;t++){ Wit w=pool_[rnd()%pool_.size()]; int n=1+rnd()%(tries>50?4:2); for(int i=0;i<n;i++){ int a=at[rnd()%at.size()]; const Q&o=witVal(w,pc.atoms[a].vid,pc.atoms[a].sgn); Q v; if(tries>50&&rnd()%2){ static const Q f[]={Q(1,2),Q(2),Q(9,8),Q(7,8),Q(1,16),Q(-1),Q(3)}; v=o*f[rnd()%7]; int sg=v>0?S_POS:v<0?S_NEG:S_ZERO; if(!(sg&pc.atoms[a].sgn)) v=randQ(pc.atoms[a].sgn); } else v=randQ(pc.atoms[a].sgn); w[pc.atoms[a].vid]=v; } if((witSign(d,w)&mask)&&witOk(w)){ out=w; return true; } }
  return false; }
bool Engine::witRepair(const Poly*d,int mask,Wit&out){
  std::vector<int> vars; { std::set<int> bad; std::map<int,int> good; for(auto&x:d->t) for(auto&ae:pc.monos[x.first]){ Atom&A=pc.atoms[ae.first]; if(A.k==Atom::VAR){ if(ae.second==1) good[ae.first]=1; else bad.insert(A.vid); } else for(int v:A.vars) bad.insert(v); } for(auto&g:good) if(!bad.count(pc.atoms[g.first].vid)) vars.push_back(g.first); }
  int tries=0;
  for(size_t wi=0;wi<pool_.size()&&wi<4;wi++){
    for(int a:vars){ if(++tries>24) return false; Poly*c=pc.fresh(),*b=pc.fresh(); for(auto&x:d->t){ bool has=false; Mono m2; for(auto&ae:pc.monos[x.first]) if(ae.first==a) has=true; else m2.push_back(ae); if(has) c->t.push_back({pc.monoId(m2),x.second}); else b->t.push_back(x); }
      std::sort(c->t.begin(),c->t.end(),[](auto&x,auto&y){return x.first<y.first;}); Q cv,bv; if(!evalQ(c,pool_[wi],cv)||cv==0||!evalQ(b,pool_[wi],bv)) continue; Q root=-bv/cv; Atom&A=pc.atoms[a];
      Q dl[6]; int nd=0; if(mask&S_ZERO) dl[nd++]=Q(0); if(mask&(S_POS|S_NEG)){ bool up=(mask&S_POS)? cv>0 : cv<0; Q one=up?Q(1):Q(-1); dl[nd++]=one; dl[nd++]=one/16; if((mask&S_POS)&&(mask&S_NEG)) dl[nd++]=-one; }
      for(int i=0;i<nd;i++){ Wit w=pool_[wi]; Q v=root+dl[i]; int sg=v>0?S_POS:v<0?S_NEG:S_ZERO; if(!(sg&A.sgn)) continue; witVal(w,A.vid,A.sgn); w[A.vid]=v; if((witSign(d,w)&mask)&&witOk(w)){ out=w; return true; } } } }
  return witSearch(d,mask,out,16); }
bool Engine::witFind(const Poly*d,int mask,Wit*out){ for(auto&w:pool_) if(witSign(d,w)&mask){ *out=w; return true; } if(witRepair(d,mask,*out)){ pool_.push_back(*out); return true; } return false; }
// feasibility of sign(d) in mask: 0 no, 1 yes, 2 unknown (treated as yes)
int Engine::feas(const Poly*d,int mask,Wit*w,bool&have){
  have=false; if(!mask) return 0; st.queries++; if(!witOff&&witFind(d,mask,w)){ have=true; witHits++; return 1; }
  z3::expr e=signExpr(d,mask); bool nl=nonlin(d); z3::expr l=linExpr(d,mask); curD=witOff?nullptr:d; curMask=mask; int r=checkSlice(e,pvars(d),nl,&l,true); if(curFound){ curFound=false; curD=nullptr; pool_.push_back(curWit); *w=curWit; have=true; witHits++; return 1; } curD=nullptr; if(r==2) st.unknown++;
  if(r==1&&!witOff){ auto it=qmodels.find(lastKey); if(it!=qmodels.end()){ std::vector<Wit> base=pool_; if(base.empty()) base.push_back(Wit()); Wit x=base[0]; for(auto&a:pc.atoms) if(a.k==Atom::VAR){ auto f=it->second.find(a.name); if(f!=it->second.end()){ witVal(x,a.vid,a.sgn); try{ x[a.vid]=Q(f->second); }catch(std::exception&){} } }
      if((witSign(d,x)&mask)&&witOk(x)){ pool_.push_back(x); *w=x; have=true; } } }
  return r; }
// linear relaxation: every nonlinear monomial becomes a variable of its own
z3::expr Engine::zpolyL(const Poly*p,std::map<std::string,z3::expr>&sd){
  if(p->t.empty()) return zc->real_val(0); z3::expr_vector sum(*zc); z3::expr z=zc->real_val(0);
  for(auto&x:p->t){ auto&mo=pc.monos[x.first]; if(mo.empty()){ sum.push_back(zq(x.second)); continue; }
    z3::expr v(*zc);
    if(mo.size()==1&&mo[0].second==1&&(pc.atoms[mo[0].first].k==Atom::VAR||pc.atoms[mo[0].first].k==Atom::I2R)) v=zc->real_const(pc.atoms[mo[0].first].name.c_str());
    else if(mo.size()==1&&mo[0].second==1&&pc.atoms[mo[0].first].k==Atom::ABS){ z3::expr q=zpolyL(pc.atoms[mo[0].first].arg,sd); v=z3::ite(q>=0,q,-q); }
    else { std::string nm="m!"; for(auto&ae:mo) nm+=pc.astr(ae.first)+"^"+std::to_string(ae.second)+"*"; v=zc->real_const(nm.c_str()); }
    Poly one; one.t.push_back({x.first,Q(1)}); int s=pc.quickSign(&one); if(s!=S_ANY){ std::string k=v.to_string()+char('0'+s); if(!sd.count(k)) sd.emplace(k, s==S_POS? v>z: s==S_NEG? v<z: s==(S_POS|S_ZERO)? v>=z: s==(S_NEG|S_ZERO)? v<=z: s==S_ZERO? v==z: v!=z); }
    sum.push_back(x.second==1? v: zq(x.second)*v); }
  if(sum.size()==1) return sum[0]; return z3::sum(sum); }
z3::expr Engine::linExpr(const Poly*p,int m){ std::map<std::string,z3::expr> sd; z3::expr e=zpolyL(p,sd); z3::expr z=zc->real_val(0); z3::expr r= m==S_POS? e>z : m==S_NEG? e<z : m==S_ZERO? e==z : m==(S_POS|S_ZERO)? e>=z : m==(S_NEG|S_ZERO)? e<=z : m==(S_NEG|S_POS)? e!=z : zc->bool_val(m!=0); for(auto&x:sd) r= r && x.second; return r; }
// returns 0 unsat,1 sat,2 unknown
int Engine::checkSlice(const z3::expr&e,const std::vector<int>&vars,bool nl,const z3::expr*lin,bool wantModel){
  std::set<int> vs(vars.begin(),vars.end()); std::vector<char> in(cons.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!in[i]){ bool hit=false; for(int v:cons[i].vars) if(vs.count(v)){ hit=true; break; } if(hit){ in[i]=1; ch=true; for(int v:cons[i].vars) vs.insert(v); if(cons[i].nl) nl=true; } } }
  std::vector<z3::expr> es; std::vector<unsigned> ids; es.push_back(e); ids.push_back(Z3_get_ast_id(*zc,e));
  for(size_t i=0;i<cons.size();i++) if(in[i]){ unsigned id=Z3_get_ast_id(*zc,cons[i].e); ids.push_back(id); es.push_back(cons[i].e); }
  std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
  std::string key((char*)ids.data(),ids.size()*sizeof(unsigned)); lastKey=key;
  auto it=qcache.find(key); if(it!=qcache.end()){ st.cacheHits++; return it->second; }
  double t0=now(); int res=2; st.solverCalls++;
  auto linS=[&]()->z3::solver&{ if(!linSolver){ linSolver.reset(new z3::solver(*zc,z3::solver::simple())); z3::params p(*zc); p.set("timeout",5000u); linSolver->set(p); } linSolver->reset(); return *linSolver; };
  auto keepModel=[&](z3::solver&s){ if(!wantModel) return; try{ z3::model m=s.get_model(); auto&mm=qmodels[key]; for(unsigned i=0;i<m.num_consts();i++){ z3::func_decl f=m.get_const_decl(i); if(!f.range().is_real()) continue; z3::expr v=m.get_const_interp(f); if(Z3_is_algebraic_number(*zc,v)) v=z3::expr(*zc,Z3_get_algebraic_number_lower(*zc,v,8)); if(v.is_numeral()) mm[f.name().str()]=Z3_get_numeral_string(*zc,v); } }catch(...){} };
  if(nl&&lin){ // cheap sound refutation first
    try{ z3::solver&s=linS(); s.add(*lin); for(size_t i=0;i<cons.size();i++) if(in[i]) s.add(cons[i].lin); if(s.check()==z3::unsat) res=0; }catch(z3::exception&){} }
  if(nl&&res==2&&curD){ if(witSearch(curD,curMask,curWit,400)){ curFound=true; st.solverT+=now()-t0; return 1; } }
  for(int attempt=0;attempt<2&&res==2;attempt++){
    try{
      if(!nl){ z3::solver&s=linS(); for(auto&x:es) s.add(x); auto r=s.check(); res= r==z3::sat?1: r==z3::unsat?0:2; if(res==1) keepModel(s); }
      else { z3::solver s= (attempt==0)? z3::solver(*zc,"QF_NRA") : z3::solver(*zc);
      z3::params p(*zc); p.set("timeout",(unsigned)(nlTimeout+attempt*(nlTimeout>500?2500:0))); s.set(p);
      for(auto&x:es) s.add(x);
      auto r=s.check(); res= r==z3::sat?1: r==z3::unsat?0:2; if(res==1) keepModel(s); }
    }catch(z3::exception&ex){ res=2; }
    if(!nl) break;
  }
  double dt=now()-t0; st.solverT+=dt; if(getenv("SX_SLOW")&&dt>0.5){ fprintf(stderr,"SLOW %.2f res=%d nl=%d\n",dt,res,nl); for(auto&x:es) std::cerr<<"  "<<x<<"\n"; }
  for(auto&x:es) qkeep.push_back(x); qcache[key]=res; return res;
}
static bool singleTerm(PolyCtx&pc,const Poly*d,int&atom,int&sc){ if(d->t.size()!=1) return false; auto&m=pc.monos[d->t[0].first]; if(m.size()!=1||m[0].second!=1) return false; atom=m[0].first; sc=d->t[0].second>0?1:-1; return true; }
void Engine::addSign(const Poly*d0,int mask,int depth){
  const Poly*d=depth?pc.norm(d0):d0; if(d->isConst()) return; int at,sc; if(depth==0&&!witOff) witFilter(d,mask);
  if(singleTerm(pc,d,at,sc)){ Atom&A=pc.atoms[at]; if(A.k==Atom::ABS||A.k==Atom::SQRT){ int m=sc>0?mask:flipMask(mask); int qm=0; if(m&S_ZERO) qm|=S_ZERO; if(m&S_POS) qm|= A.k==Atom::ABS?(S_NEG|S_POS):S_POS; const Poly*q=A.arg; addSign(q,qm&pc.quickSign(q),depth+1); return; } }
  int qs=pc.quickSign(d); if((qs&~mask)==0) return;
  int sg; std::string k=pc.canonKey(d,sg); int m= (sg>0?mask:flipMask(mask)); auto it=pc.facts.find(k); int old= it==pc.facts.end()?S_ANY:it->second; pc.facts[k]=old&m;
  Cons c{signExpr(d,mask),pvars(d),nonlin(d),linExpr(d,mask)}; cons.push_back(c);
  if(depth>6) return;
  if(mask==S_ZERO){
    // sum of same-signed monomials
    if(d->t.size()>1){ bool pos=true,neg=true; for(auto&x:d->t){ Poly*t=pc.fresh(); t->t.push_back(x); int q=pc.quickSign(t); if(q&S_NEG) pos=false; if(q&S_POS) neg=false; }
      if(pos||neg){ auto terms=d->t; for(auto&x:terms){ Poly*t=pc.fresh(); t->t.push_back(x); addSign(t,S_ZERO,depth+1); } return; } }
    else { auto&mo=pc.monos[d->t[0].first]; if(mo.size()==1){ const Poly*x=pc.atomPoly(mo[0].first); Atom&A=pc.atoms[mo[0].first]; if(A.k==Atom::VAR){ pc.subst[mo[0].first]=pc.constant(Q(0)); } else if(mo[0].second!=1) addSign(x,S_ZERO,depth+1); }
      else { int cand=-1,nc=0; for(auto&ae:mo){ if(pc.atomSign(ae.first)&S_ZERO){ cand=ae.first; nc++; } else { int q=pc.quickSign(pc.atomPoly(ae.first)); (void)q; } } if(nc>1){ // use facts
            nc=0; for(auto&ae:mo) if(pc.quickSign(pc.atomPoly(ae.first))&S_ZERO){ cand=ae.first; nc++; } }
          if(nc==1) addSign(pc.atomPoly(cand),S_ZERO,depth+1); } return; }
    // linear in some variable with constant coefficient?
    for(int i=(int)d->t.size()-1;i>=0;i--){ Mono mo=pc.monos[d->t[i].first]; if(mo.size()!=1||mo[0].second!=1) continue; int a=mo[0].first; if(pc.atoms[a].k!=Atom::VAR||pc.subst.count(a)) continue;
      int vid=pc.atoms[a].vid; bool ok=true; for(size_t j=0;j<d->t.size()&&ok;j++) if((int)j!=i) for(auto&ae:pc.monos[d->t[j].first]) for(int v:pc.atoms[ae.first].vars) if(v==vid) ok=false;
      if(!ok) continue; Poly*r=pc.fresh(); for(size_t j=0;j<d->t.size();j++) if((int)j!=i) r->t.push_back({d->t[j].first,Q(-d->t[j].second/d->t[i].second)}); pc.subst[a]=r; if(pc.atoms[a].sgn!=S_ANY) addSign(r,pc.atoms[a].sgn,depth+1); break; }
  } else if(!(mask&S_ZERO)&&d->t.size()==1){ auto mo=pc.monos[d->t[0].first]; if(mo.size()>1||(mo.size()==1&&mo[0].second!=1)) for(auto&ae:mo) addSign(pc.atomPoly(ae.first),S_NEG|S_POS,depth+1); }
}
bool Engine::branchSign(const Poly*d,int T){
  if(d->t.empty()) return T&S_ZERO;
  int at,sc;
  if(singleTerm(pc,d,at,sc)){ Atom&A=pc.atoms[at]; if(A.k==Atom::ABS||A.k==Atom::SQRT){ int t=sc>0?T:flipMask(T); int qt=0; if(t&S_ZERO) qt|=S_ZERO; if(t&S_POS) qt|= A.k==Atom::ABS?(S_NEG|S_POS):S_POS; if(A.k==Atom::SQRT&&(t&S_ZERO)) qt|=S_NEG; return branchSign(pc.norm(A.arg),qt); } }
  if(d->t.size()==2){ int a1,a2,s1,s2; Poly p1,p2; p1.t={d->t[0]}; p2.t={d->t[1]}; if(singleTerm(pc,&p1,a1,s1)&&singleTerm(pc,&p2,a2,s2)&&pc.atoms[a1].k==Atom::SQRT&&pc.atoms[a2].k==Atom::SQRT&&s1!=s2){ // difference of two square roots
      const Poly*x=pc.scale(pc.atoms[a1].arg,d->t[0].second*d->t[0].second),*y=pc.scale(pc.atoms[a2].arg,d->t[1].second*d->t[1].second); return branchSign(pc.norm(pc.add(x,y,-1)),s1>0?T:flipMask(T)); } }
  // c*sqrt(q)+r -> compare squares when the sign of r allows it
  { int si=-1,cnt=0; for(size_t i=0;i<d->t.size();i++){ auto&m=pc.monos[d->t[i].first]; for(auto&ae:m) if(pc.atoms[ae.first].k==Atom::SQRT){ cnt++; if(m.size()==1&&ae.second==1) si=i; } }
    if(cnt==1&&si>=0){ Q c=d->t[si].second; const Poly*q=pc.atoms[pc.monos[d->t[si].first][0].first].arg; Poly*r=pc.fresh(); for(size_t j=0;j<d->t.size();j++) if((int)j!=si) r->t.push_back(d->t[j]);
      const Poly*r1= c>0? pc.scale(r,Q(-1)) : r; int rs=pc.quickSign(r1); // |c| sqrt(q) - r1
      if(rs==S_NEG) return (c>0?T:flipMask(T))&S_POS;
      if(!(rs&S_NEG)){ const Poly*e=pc.norm(pc.add(pc.scale(q,c*c),pc.mul(r1,r1),-1)); return branchSign(e,c>0?T:flipMask(T)); } } }
  int m=pc.quickSign(d); if(!(m&~T)) return true; if(!(m&T)) return false;
  int mt=m&T, mf=m&~T; bool r;
  if(decPos<prefix.size()){ Dec k=prefix[decPos++]; dec.push_back(k); switch(k.k){ case 'T': addSign(d,mt); return true; case 'F': addSign(d,mf); return false; case 't': addSign(d,mt); return true; case 'f': addSign(d,mf); return false; default: throw Unsup{"replay divergence"}; } }
  Wit wt,wf; bool ht,hf; bool ft=feas(d,mt,&wt,ht)!=0, ff=feas(d,mf,&wf,hf)!=0;
  if(ft&&ff){ Prefix alt=dec; alt.push_back({'F',0}); if(hf){ alt.wit.push_back(wf); for(auto&w:pool_) if(alt.wit.size()<3&&(witSign(d,w)&mf)&&w!=wf) alt.wit.push_back(w); } frontier.push_back(std::move(alt)); dec.push_back({'T',0}); st.forks++; r=true; if(getenv("SX_FORKS")){ fprintf(stderr,"FORK %s : %s\n",backtrace(cur)[0].c_str(),pc.str(d).substr(0,200).c_str()); } }
  else if(ft){ dec.push_back({'t',0}); r=true; } else if(ff){ dec.push_back({'f',0}); r=false; } else throw PathEnd{"infeasible"};
  addSign(d,r?mt:mf); return r;
}
bool Engine::branchExpr(const z3::expr&e0,const std::set<int>&vars){
  z3::expr e=e0.simplify(); if(e.is_true()) return true; if(e.is_false()) return false;
  std::vector<int> vv(vars.begin(),vars.end());
  if(decPos<prefix.size()){ Dec k=prefix[decPos++]; dec.push_back(k); bool r= k.k=='T'||k.k=='t'; if(k.k=='T'||k.k=='F') cons.push_back(Cons{r?e:!e,vv,false,r?e:!e}); return r; }
  st.queries+=2; int a=checkSlice(e,vv,false), b=checkSlice(!e,vv,false); if(a==2||b==2) st.unknown++;
  if(a&&b){ Prefix alt=dec; alt.wit.assign(pool_.begin(),pool_.begin()+std::min<size_t>(2,pool_.size())); alt.push_back({'F',0}); frontier.push_back(std::move(alt)); dec.push_back({'T',0}); st.forks++; cons.push_back(Cons{e,vv,false,e}); return true; }
  if(a){ dec.push_back({'t',0}); return true; } if(b){ dec.push_back({'f',0}); return false; } throw PathEnd{"infeasible"};
}
int Engine::choice(int n){
  if(n<=1) return 0;
  if(decPos<prefix.size()){ Dec k=prefix[decPos++]; dec.push_back(k); return k.v; }
  for(int i=n-1;i>=1;i--){ Prefix alt=dec; alt.wit.assign(pool_.begin(),pool_.begin()+std::min<size_t>(2,pool_.size())); alt.push_back({'C',i}); frontier.push_back(std::move(alt)); } st.forks++; dec.push_back({'C',0}); return 0;
}
uint64_t Engine::conc(Val v,int64_t lo,int64_t hi){
  if(v.k==V_INT) return v.i; if(v.k==V_UNDEF) viol("uninitialised","an address, size or index depends on an uninitialised value");
  if(v.k!=V_SYM) throw Unsup{"integer value of unexpected kind"};
  z3::expr e=symx[v.s]; std::vector<int> vv(symv[v.s].begin(),symv[v.s].end());
  for(;;){
    if(decPos<prefix.size()){ Dec k=prefix[decPos++]; dec.push_back(k); z3::expr eq= e==zc->bv_val((uint64_t)k.v,v.w); if(k.k=='N'){ cons.push_back(Cons{!eq,vv,false,!eq}); continue; } if(k.k=='E') cons.push_back(Cons{eq,vv,false,eq}); return VI(k.v,v.w).i; }
    // find a value (prefer one outside the hinted range, so out-of-bounds uses surface first)
    auto solveFor=[&](z3::expr*ex,uint64_t&out)->int{ st.queries++; double t0=now(); z3::solver s(*zc); z3::params p(*zc); p.set("timeout",10000u); s.set(p); std::set<int> vs(vv.begin(),vv.end()); for(int it=0;it<3;it++) for(auto&c:cons) for(int x:c.vars) if(vs.count(x)) { for(int y:c.vars) vs.insert(y); }
      for(auto&c:cons){ bool h=false; for(int x:c.vars) if(vs.count(x)) h=true; if(h) s.add(c.e);} if(ex) s.add(*ex); auto r=s.check(); st.solverCalls++; st.solverT+=now()-t0; if(r==z3::sat){ z3::expr mv=s.get_model().eval(e,true); uint64_t u; if(!mv.is_numeral_u64(u)) return 2; out=u; return 1; } return r==z3::unsat?0:2; };
    uint64_t val; int r=0; bool gotv=false;
    if(lo!=INT64_MIN||hi!=INT64_MAX){ z3::expr o= e<zc->bv_val((int64_t)lo,v.w) || e>zc->bv_val((int64_t)hi,v.w); r=solveFor(&o,val); if(r==1) gotv=true; }
    if(!gotv){ r=solveFor(nullptr,val); if(r==0) throw PathEnd{"infeasible"}; if(r==2) throw Unsup{"solver could not enumerate an index"}; }
    z3::expr ne= e!=zc->bv_val((uint64_t)val,v.w); uint64_t dummy; int r2=solveFor(&ne,dummy); st.concr++;
    if(r2==0){ dec.push_back({'e',(int64_t)val}); return val; }
    { Prefix alt=dec; alt.wit.assign(pool_.begin(),pool_.begin()+std::min<size_t>(2,pool_.size())); alt.push_back({'N',(int64_t)val}); if(alt.size()>4000) throw Unsup{"index enumeration too large"}; frontier.push_back(std::move(alt)); st.forks++; }
    dec.push_back({'E',(int64_t)val}); cons.push_back(Cons{e==zc->bv_val((uint64_t)val,v.w),vv,false,e==zc->bv_val((uint64_t)val,v.w)}); return val;
  }
}
Val Engine::iarith(const DI&d,const Val&a,const Val&b){
  int w=d.w;
  if(a.k==V_UNDEF||b.k==V_UNDEF) return VU();
  if(a.k==V_INT&&b.k==V_INT){
    uint64_t x=a.i,y=b.i; int64_t sxx=sx(x,w),syy=sx(y,w); uint64_t r=0;
    switch(d.op){
      case OP_ADD: r=x+y; if(d.nsw){ __int128 t=(__int128)sxx+syy; if(t!=(__int128)sx(VI(r,w).i,w)) viol("signed-overflow","signed integer overflow in addition"); } break;
      case OP_SUB: r=x-y; if(d.nsw){ __int128 t=(__int128)sxx-syy; if(t!=(__int128)sx(VI(r,w).i,w)) viol("signed-overflow","signed integer overflow in subtraction"); } break;
      case OP_MUL: r=x*y; if(d.nsw){ __int128 t=(__int128)sxx*syy; if(t!=(__int128)sx(VI(r,w).i,w)) viol("signed-overflow","signed integer overflow in multiplication"); } break;
      case OP_UDIV: if(!y) viol("int-div-zero","integer division by zero"); r=x/y; break; case OP_UREM: if(!y) viol("int-div-zero","integer division by zero"); r=x%y; break;
      case OP_SDIV: if(!y) viol("int-div-zero","integer division by zero"); r=syy==-1? (uint64_t)(-sxx): (uint64_t)(sxx/syy); break; case OP_SREM: if(!y) viol("int-div-zero","integer division by zero"); r= syy==-1?0:(uint64_t)(sxx%syy); break;
      case OP_SHL: r= y>=64?0:x<<y; break; case OP_LSHR: r= y>=64?0:x>>y; break; case OP_ASHR: r=(uint64_t)(sxx>>(y>63?63:y)); break; case OP_AND: r=x&y; break; case OP_OR: r=x|y; break; case OP_XOR: r=x^y; break; }
    return VI(r,w);
  }
  if(a.k==V_AGG||b.k==V_AGG||a.k==V_POLY||b.k==V_POLY||a.k==V_FLT||b.k==V_FLT) throw Unsup{"integer arithmetic on symbolic float bits"};
  if((d.op==OP_SREM||d.op==OP_UREM)&&a.k==V_SYM&&b.k==V_INT&&randAtom.count(a.s)&&b.i>1&&b.i<=64){ /* rand()%c: any residue, one path each */
    std::string nm=pc.atoms[randAtom[a.s]].name; for(auto&in:inputs) if(in.t=='J'&&in.name==nm){ if(in.sym!=(int)b.i) throw Unsup{"rand() reduced twice"}; return VI(in.val,w); }
    int c=choice((int)b.i); Input in; in.t='J'; in.name=nm; in.val=c; in.sym=(int)b.i; inputs.push_back(in); return VI(c,w); }
  z3::expr x=zsym(a),y=zsym(b); auto vs=svars(a); auto v2=svars(b); vs.insert(v2.begin(),v2.end());
  switch(d.op){
    case OP_ADD: if(d.nsw){ z3::expr ov=z3::bvadd_no_overflow(x,y,true)&&z3::bvadd_no_underflow(x,y); if(!branchExpr(ov,vs)) viol("signed-overflow","signed integer overflow in addition"); } return newSym(x+y,w,vs);
    case OP_SUB: if(d.nsw){ z3::expr ov=z3::bvsub_no_overflow(x,y)&&z3::bvsub_no_underflow(x,y,true); if(!branchExpr(ov,vs)) viol("signed-overflow","signed integer overflow in subtraction"); } return newSym(x-y,w,vs);
    case OP_MUL: if(d.nsw){ z3::expr ov=z3::bvmul_no_overflow(x,y,true)&&z3::bvmul_no_underflow(x,y); if(!branchExpr(ov,vs)) viol("signed-overflow","signed integer overflow in multiplication"); } return newSym(x*y,w,vs);
    case OP_UDIV: case OP_UREM: case OP_SDIV: case OP_SREM: { if(!branchExpr(y!=zc->bv_val(0,w),vs)) viol("int-div-zero","integer division by zero"); z3::expr r= d.op==OP_UDIV? z3::udiv(x,y): d.op==OP_UREM? z3::urem(x,y): d.op==OP_SDIV? x/y : z3::srem(x,y); return newSym(r,w,vs); }
    case OP_SHL: return newSym(z3::shl(x,y),w,vs); case OP_LSHR: return newSym(z3::lshr(x,y),w,vs); case OP_ASHR: return newSym(z3::ashr(x,y),w,vs); case OP_AND: return newSym(x&y,w,vs); case OP_OR: return newSym(x|y,w,vs); case OP_XOR: return newSym(x^y,w,vs);
  }
  throw Unsup{"iarith"};
}
// ---- asserts
void Engine::decideNeg(const z3::expr&neg,const std::vector<int>&vars,bool nl,const std::string&msg,const Poly*d,int mask,const z3::expr*lin){
  st.queries++; st.obligSolver++; curD=witOff?nullptr:d; curMask=mask; curFound=false; int r=0;
  if(curD) for(auto&w:pool_) if(witSign(d,w)&mask){ curWit=w; curFound=true; r=1; break; }
  if(!curFound) r=checkSlice(neg,vars,nl,lin);
  bool found=curFound; curD=nullptr; curFound=false;
  if(r==0) return;
  if(found){ std::vector<Wit> sv=pool_; pool_.assign(1,curWit); std::vector<int> vv=vars; violSoft("assert",msg,const_cast<z3::expr*>(&neg),&vv); pool_=sv; return; }
  if(r==2){ st.batchUnknown++; notes.push_back("undecided assertion: "+msg); return; }
  std::vector<int> vv=vars; violSoft("assert",msg,const_cast<z3::expr*>(&neg),&vv);
}
// two sides with the same normal form: recheck with the solver in batches
void Engine::nfProved(const Poly*g,const Poly*w,const std::string&msg,bool count){
  if(count) st.obligNF++;
  if(g==w||pc.add(g,w,-1)->t.empty()) return; // literally the same polynomial
  sides.clear(); sideOf.clear(); z3::expr neg= zpoly(g)!=zpoly(w); for(auto&s:sides) neg= neg && s.first; std::set<int> vs; pc.closure(g,vs); pc.closure(w,vs);
  batch.push_back(Batch{neg,std::vector<int>(vs.begin(),vs.end()),msg}); if(batch.size()>=64) flushBatch();
}
void Engine::flushBatch(){
  if(batch.empty()) return; z3::expr_vector v(*zc); for(auto&b:batch) v.push_back(b.neg); z3::expr any=z3::mk_or(v);
  double t0=now(); z3::params sp(*zc); sp.set("som",true); z3::expr s=any.simplify(sp); st.solverT+=now()-t0;
  if(s.is_false()){ st.obligSolver+=batch.size(); st.solverCalls++; batch.clear(); return; }
  std::set<int> vs; for(auto&b:batch) vs.insert(b.vars.begin(),b.vars.end());
  unsigned sv=nlTimeout; nlTimeout=200; int r=checkSlice(any,std::vector<int>(vs.begin(),vs.end()),true); nlTimeout=sv;
  if(r==0) st.obligSolver+=batch.size(); else if(r==2){ notes.push_back("normal-form-only obligations (solver timed out)"); }
  else { // the two engines disagree: report as an internal inconsistency, loudly
    batch.clear(); throw Unsup{"solver refutes a normal-form identity: encoder bug"}; }
  batch.clear();
}
double Engine::evalD(const Poly*p,std::map<int,double>&mv){
  long double s=0; for(auto&x:p->t){ long double t=x.second.get_d(); for(auto&ae:pc.monos[x.first]){ Atom&A=pc.atoms[ae.first]; double b; if(A.k==Atom::VAR||A.k==Atom::I2R) { auto it=mv.find(A.vid); b= it==mv.end()?0:it->second; } else { b=evalD(A.arg,mv); if(A.k==Atom::ABS) b=std::fabs(b); else if(A.k==Atom::SQRT) b=std::sqrt(b); } t*=std::pow((long double)b,ae.second); } s+=t; } return (double)s;
}
static double zval(const z3::expr&v){ std::string s; if(v.is_numeral()){ try{ Q q(Z3_get_numeral_string(v.ctx(),v)); q.canonicalize(); return q.get_d(); }catch(...){} } s=v.get_decimal_string(17); if(!s.empty()&&s.back()=='?') s.pop_back(); return atof(s.c_str()); }
std::string Engine::modelInputs(z3::expr*extra,bool&ok,std::map<int,double>*mvOut,std::map<int,int64_t>*msOut){
  ok=false; std::map<int,double> mv; std::map<int,int64_t> ms; bool anyNl=false; for(auto&c:cons) if(c.nl) anyNl=true;
  std::vector<z3::expr> es; for(auto&c:cons) es.push_back(c.e); if(extra) es.push_back(*extra);
  // side conditions on the sign of inputs
  sides.clear(); sideOf.clear(); for(auto&in:inputs) if(in.atom>=0) zatom(in.atom); for(auto&s:sides) es.push_back(s.first);
  auto trySolve=[&](std::vector<z3::expr>&more,unsigned to,z3::model**out)->int{
    for(int a=0;a<2;a++){ try{ z3::solver s= (anyNl||extra)? (a==0? z3::solver(*zc,"QF_NRA"):z3::solver(*zc)) : z3::solver(*zc); z3::params p(*zc); p.set("timeout",to); s.set(p); for(auto&e:es) s.add(e); for(auto&e:more) s.add(e); auto r=s.check(); st.solverCalls++; if(r==z3::sat){ *out=new z3::model(s.get_model()); return 1; } if(r==z3::unsat) return 0; }catch(z3::exception&){} }
    return 2; };
  double t0=now(); z3::model*m=nullptr; std::vector<z3::expr> fix; int r=2; bool fromWit=false;
  if(!witOff) for(size_t wi=0;wi<pool_.size()&&wi<2&&r!=1;wi++){ fix.clear(); for(auto&in:inputs) if(in.t=='R'&&in.vid<(int)pool_[wi].size()&&in.atom>=0) fix.push_back(zc->real_const(in.name.c_str())==zq(witVal(pool_[wi],in.vid,pc.atoms[in.atom].sgn))); r=trySolve(fix,1000,&m); if(r==1) fromWit=true; }
  fix.clear(); if(r!=1) r=trySolve(fix,4000,&m);
  if(r!=1){ st.solverT+=now()-t0; return ""; }
  ok=true; std::map<int,z3::expr> cvar; 
  // greedy rounding to small distinct integers, for exact float replay
  int budget=60; int k=0; double tEnd=now()+6;
  if(!(fromWit&&anyNl)) for(auto&in:inputs) if(in.t=='R'){ z3::expr v=zc->real_const(in.name.c_str()); z3::expr mvx=m->eval(v,false); k++; 
      std::vector<double> cand; bool free= !mvx.is_numeral()&&!mvx.is_algebraic(); double cur0= free? 0: zval(mvx);
      int sgn=pc.atoms[in.atom].sgn; int f=pc.quickSign(pc.norm(pc.atomPoly(in.atom))); (void)sgn;
      if(f==S_ZERO) cand.push_back(0); else { double g=(k%5)+2; if(f&S_POS) cand.push_back(g); if(f&S_NEG) cand.push_back(-g); if(f&S_POS) cand.push_back(1); if(f&S_NEG) cand.push_back(-1); cand.push_back(0); if(std::fabs(cur0)<1e15){ cand.push_back(std::round(cur0)); cand.push_back(std::round(cur0*4)/4); } }
      bool fixed=false;
      for(double cnd:cand){ if(budget<=0||now()>tEnd) break; budget--; fix.push_back(v==zc->real_val(Q(cnd).get_str().c_str())); z3::model*m2=nullptr; int rr=trySolve(fix,600,&m2); if(rr==1){ delete m; m=m2; fixed=true; break; } fix.pop_back(); }
      (void)fixed; }
  std::string out;
  for(auto&in:inputs){
    char buf[64];
    if(in.t=='R'){ z3::expr v=m->eval(zc->real_const(in.name.c_str()),true); double d=zval(v); mv[in.vid]=d; snprintf(buf,sizeof buf,"%.17g",d); out+="R "+in.name+" "+buf+"\n"; }
    else if(in.t=='I'){ z3::expr v=m->eval(symx[in.sym],true); uint64_t u=0; v.is_numeral_u64(u); int64_t s=sx(u,32); ms[in.vid]=s; out+="I "+in.name+" "+std::to_string(s)+"\n"; }
    else if(in.t=='J') out+="J "+in.name+" "+std::to_string(in.val)+"\n";
    else out+="C "+in.name+" "+std::to_string(in.val)+"\n";
  }
  delete m; st.solverT+=now()-t0; if(mvOut) *mvOut=mv; if(msOut) *msOut=ms; return out;
}
void Engine::violSoft(const std::string&kind,const std::string&msg,z3::expr*extra,std::vector<int>*vars){
  auto bt=backtrace(cur); std::string where; for(auto&f:bt){ std::string fn=f.substr(0,f.find('@')); auto it=fname.find(fn); if(it!=fname.end()&&it->second->repo){ where=f; break; } } if(where.empty()&&!bt.empty()) where=bt[0]; if(!leakWhere.empty()) where=leakWhere;
  std::string key=kind+"|"+msg+"|"+(kind=="assert"?"":where); 
  for(auto&v:viols) if(v.kind+"|"+v.msg+"|"+(v.kind=="assert"?"":v.where)==key) { assertFails++; return; }
  Viol v; v.kind=kind; v.msg=msg; v.where=where; v.stack=bt; v.detail=pendingDetail; if(pendGot) v.detail+=" got "+pc.str(pc.norm(pendGot)); if(pendWant) v.detail+=" want "+pc.str(pc.norm(pendWant)); bool ok; v.inputs=modelInputs(extra,ok); if(!ok) v.detail+=" no model within the time limit (path condition or negation undecided)"; viols.push_back(v); assertFails++;
}
void Engine::viol(const std::string&kind,const std::string&msg,bool){ violSoft(kind,msg); throw PathEnd{"violation"}; }
// ---- run
void Engine::resetPath(){
  pc.reset(); objs.clear(); poolUsed=0; aggs.clear(); threads.clear(); teams.clear(); procs.clear(); symx.clear(); symv.clear(); cons.clear(); nvid=0; files.clear(); fhs.clear(); inputs.clear(); dec.clear(); decPos=0; batch.clear(); observed.clear(); nameCnt.clear(); lockOwner.clear(); lockIds.clear(); steps=0; cur=nullptr; live=0; randCnt=0; assertFails=0; phaseCtr=1; objSeq=0; randAtom.clear(); pushThreads=0; pendingDetail.clear(); pendGot=pendWant=nullptr; lastLog.clear();
  nThreads=1; sched=0; preempt=0; allowExit=false; nprocs=1;
  objs.resize(G,nullptr);
  sides.clear(); sideOf.clear();
}
Thread* Engine::newThread(Proc*p){ threads.emplace_back(new Thread); Thread*t=threads.back().get(); t->id=threads.size()-1; t->proc=p; return t; }
void Engine::push(Thread&t,DFunc*f,const Val*args,int n,int retSlot){
  if(!f->decoded) decode(f); if(f->bbs.empty()) throw Unsup{"call to undefined function "+f->name}; f->used=true; f->calls++;
  if(t.fr.size()>400) viol("stack-overflow","call depth exceeds 400");
  Frame fr; fr.f=f; fr.base=t.regs.size(); fr.retSlot=retSlot; t.regs.resize(fr.base+f->nslots,VU()); for(int i=0;i<f->nargs&&i<n;i++) t.regs[fr.base+i]=args[i]; t.fr.push_back(std::move(fr));
}
void Engine::popFrame(Thread&t){ Frame&f=t.fr.back(); for(uint32_t i:f.allocas){ Obj*o=objs[i]; o->alive=false; o->cells.clear(); o->data.clear(); o->tag.clear(); o->sh.clear(); } t.regs.resize(f.base); t.fr.pop_back(); }
void Engine::runThread(Thread*tp){
  Thread&t=*tp; cur=tp; Val tmp[40];
  while(t.st==Thread::RUN){
    Frame&fr=t.fr.back(); DBlock&B=fr.f->bbs[fr.bb]; DI&d=B.ins[fr.pc]; Val*R=&t.regs[fr.base];
    auto get=[&](const Opd&o)->const Val&{ return o.slot>=0?R[o.slot]:o.c; };
    if(++steps>maxSteps) viol("nontermination","step limit reached: execution does not terminate within "+std::to_string(maxSteps)+" instructions");
    if((steps&0xfffff)==0&&now()>deadline) throw PathEnd{"timeout"};
    auto jump=[&](int bb,int si){ auto&ph=d.phis[si]; if(!ph.empty()){ Val loc[64]; size_t n=ph.size(); if(n>64) throw Unsup{"phis"}; for(size_t i=0;i<n;i++) loc[i]=get(ph[i].src); for(size_t i=0;i<n;i++) R[ph[i].dst]=loc[i]; } fr.bb=bb; fr.pc=0; };
    switch(d.op){
      case OP_ADD: case OP_SUB: case OP_MUL: case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: case OP_SHL: case OP_LSHR: case OP_ASHR: case OP_AND: case OP_OR: case OP_XOR:
        R[d.dst]=iarith(d,get(d.ops[0]),get(d.ops[1])); fr.pc++; break;
      case OP_FADD: case OP_FSUB: case OP_FMUL: R[d.dst]=farith(d.op,get(d.ops[0]),get(d.ops[1])); fr.pc++; break;
      case OP_FDIV: R[d.dst]=fdivv(get(d.ops[0]),get(d.ops[1])); fr.pc++; break;
      case OP_FNEG: R[d.dst]=fneg(get(d.ops[0])); fr.pc++; break;
      case OP_ICMP: { const Val&a=get(d.ops[0]); const Val&b=get(d.ops[1]); bool r=false;
        if(a.k==V_UNDEF||b.k==V_UNDEF) viol("uninitialised","branch or comparison depends on an uninitialised integer");
        if(a.k==V_INT&&b.k==V_INT){ int w=d.w2; uint64_t x=a.i,y=b.i; int64_t p=sx(x,w),q=sx(y,w);
          switch(d.pred){ case ICmpInst::ICMP_EQ:r=x==y;break; case ICmpInst::ICMP_NE:r=x!=y;break; case ICmpInst::ICMP_UGT:r=x>y;break; case ICmpInst::ICMP_UGE:r=x>=y;break; case ICmpInst::ICMP_ULT:r=x<y;break; case ICmpInst::ICMP_ULE:r=x<=y;break; case ICmpInst::ICMP_SGT:r=p>q;break; case ICmpInst::ICMP_SGE:r=p>=q;break; case ICmpInst::ICMP_SLT:r=p<q;break; case ICmpInst::ICMP_SLE:r=p<=q;break; } }
        else if((a.k==V_SYM||a.k==V_INT)&&(b.k==V_SYM||b.k==V_INT)){ z3::expr x=zsym(a),y=zsym(b); z3::expr e(*zc); switch(d.pred){ case ICmpInst::ICMP_EQ:e=x==y;break; case ICmpInst::ICMP_NE:e=x!=y;break; case ICmpInst::ICMP_UGT:e=z3::ugt(x,y);break; case ICmpInst::ICMP_UGE:e=z3::uge(x,y);break; case ICmpInst::ICMP_ULT:e=z3::ult(x,y);break; case ICmpInst::ICMP_ULE:e=z3::ule(x,y);break; case ICmpInst::ICMP_SGT:e=x>y;break; case ICmpInst::ICMP_SGE:e=x>=y;break; case ICmpInst::ICMP_SLT:e=x<y;break; case ICmpInst::ICMP_SLE:e=x<=y;break; } auto vs=svars(a); auto v2=svars(b); vs.insert(v2.begin(),v2.end()); r=branchExpr(e,vs); }
        else if(a.k==V_POLY&&b.k==V_INT&&((d.pred==ICmpInst::ICMP_SLT&&b.i==0)||(d.pred==ICmpInst::ICMP_SGT&&sx(b.i,d.w2)==-1))) r=fcmp(d.pred==ICmpInst::ICMP_SLT?FCmpInst::FCMP_OLT:FCmpInst::FCMP_OGE,a,VF(0)); // the sign bit of a real
        else throw Unsup{"integer comparison of symbolic float bits"};
        R[d.dst]=VI(r,1); fr.pc++; break; }
      case OP_FCMP: { Val a=get(d.ops[0]),b=get(d.ops[1]); bool r=fcmp(d.pred,a,b); R[d.dst]=VI(r,1); fr.pc++; break; }
      case OP_ALLOCA: { uint64_t n=conc(get(d.ops[0])); if((int64_t)n<0||n>(1u<<28)) viol("bad-alloca","variable-length array of negative or enormous size"); uint64_t a=alloc(n*d.esz,OK_STACK); fr.allocas.push_back(objs.size()-1); R[d.dst]=VI(a,64); fr.pc++; break; }
      case OP_LOAD: { uint64_t a=conc(get(d.ops[0])); t.atomic=d.pred; Val v=load(a,d.mt); t.atomic=false; R[d.dst]=v; fr.pc++; break; }
      case OP_STORE: { uint64_t a=conc(get(d.ops[1])); t.atomic=d.pred; store(a,d.mt,get(d.ops[0])); t.atomic=false; fr.pc++; break; }
      case OP_GEP: { const Val&b=get(d.ops[0]); if(b.k==V_UNDEF) { R[d.dst]=VU(); fr.pc++; break; } uint64_t a=conc(b)+d.gepOff; bool und=false; for(auto&g:d.gepIdx){ Val iv=get(d.ops[g.first]); if(iv.k==V_UNDEF){ und=true; break; } uint64_t x; if(iv.k==V_SYM){ uint32_t off; Obj*o=find(a,off); int64_t lo=INT64_MIN,hi=INT64_MAX; if(o){ lo=-(int64_t)(off/g.second); hi=((int64_t)o->size-off)/(int64_t)g.second-1; } x=conc(iv,lo,hi); } else x=iv.i; a+=(uint64_t)(sx(x,iv.w)*(int64_t)g.second); } R[d.dst]= und?VU():VI(a,64); fr.pc++; break; }
      case OP_TRUNC: { const Val&a=get(d.ops[0]); if(a.k==V_INT) R[d.dst]=VI(a.i,d.w); else if(a.k==V_SYM){ z3::expr e=symx[a.s].extract(d.w-1,0); R[d.dst]=newSym(e,d.w,svars(a)); } else if(a.k==V_UNDEF) R[d.dst]=VU(); else throw Unsup{"trunc of float bits"}; fr.pc++; break; }
      case OP_ZEXT: { const Val&a=get(d.ops[0]); if(a.k==V_INT) R[d.dst]=VI(a.i,d.w); else if(a.k==V_SYM){ if(d.w==a.w) R[d.dst]=a; else R[d.dst]=newSym(z3::zext(symx[a.s],d.w-a.w),d.w,svars(a)); } else if(a.k==V_UNDEF) R[d.dst]=VU(); else throw Unsup{"zext of float bits"}; fr.pc++; break; }
      case OP_SEXT: { const Val&a=get(d.ops[0]); if(a.k==V_INT) R[d.dst]=VI((uint64_t)sx(a.i,d.w2),d.w); else if(a.k==V_SYM) R[d.dst]=newSym(z3::sext(symx[a.s],d.w-a.w),d.w,svars(a)); else if(a.k==V_UNDEF) R[d.dst]=VU(); else throw Unsup{"sext of float bits"}; fr.pc++; break; }
      case OP_FPTRUNC: case OP_FPEXT: R[d.dst]=get(d.ops[0]); fr.pc++; break;
      case OP_FPTOSI: case OP_FPTOUI: { const Val&a=get(d.ops[0]); if(a.k==V_FLT) R[d.dst]=VI((uint64_t)(int64_t)a.d,d.w); else if(a.k==V_UNDEF) R[d.dst]=VU(); else { const Poly*p=pc.norm(toPoly(a)); if(p->isConst()) { mpz_class z; Q q=p->t.empty()?Q(0):p->t[0].second; mpz_tdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); R[d.dst]=VI((uint64_t)z.get_si(),d.w);} else throw Unsup{"float to int conversion of a symbolic value"}; } fr.pc++; break; }
      case OP_SITOFP: case OP_UITOFP: { const Val&a=get(d.ops[0]); if(a.k==V_INT) R[d.dst]= d.op==OP_SITOFP? VF((double)sx(a.i,d.w2)) : VF((double)a.i); else if(a.k==V_UNDEF) R[d.dst]=VU();
          else if(a.k==V_SYM){ // integer-valued real tied to the bit-vector through its bounds (rand) or by enumeration
            std::string nm="i2r!"+std::to_string(a.s); auto it=pc.atomIdx.find(nm); int at; auto ra=randAtom.find(a.s); if(ra!=randAtom.end()) at=ra->second; else if(it==pc.atomIdx.end()){ int vid=-1; for(auto&in:inputs) if(in.sym==a.s) vid=in.vid; if(vid<0) throw Unsup{"int to float conversion of a derived symbolic integer"}; at=pc.newVar(nm,nvid++,S_ANY); pc.atoms[at].k=Atom::I2R; pc.atoms[at].vars={vid,pc.atoms[at].vid}; pc.atomIdx[nm]=at; z3::expr r=zc->real_const(nm.c_str()); z3::expr iv(*zc,Z3_mk_bv2int(*zc,symx[a.s],true)); cons.push_back(Cons{r==z3::to_real(iv),pc.atoms[at].vars,false,r==z3::to_real(iv)}); } else at=it->second; R[d.dst]=VP(pc.atomPoly(at)); }
          else throw Unsup{"sitofp"}; fr.pc++; break; }
      case OP_BITCAST: { const Val&a=get(d.ops[0]); if(a.k==V_FLT&&(d.mt.k==MT::INT)){ if(d.pred){ float f=a.d; uint32_t u; memcpy(&u,&f,4); R[d.dst]=VI(u,32);} else { uint64_t u; memcpy(&u,&a.d,8); R[d.dst]=VI(u,64);} } else if(a.k==V_INT&&d.mt.k==MT::F64){ double x; memcpy(&x,&a.i,8); R[d.dst]=VF(x);} else if(a.k==V_INT&&d.mt.k==MT::F32){ float x; uint32_t u=a.i; memcpy(&x,&u,4); R[d.dst]=VF(x);} 
          else if(a.k==V_AGG&&d.mt.k!=MT::AGGR&&!a.a->packed){ Agg*g=new Agg(*a.a); g->packed=true; g->size=d.mt.size; g->off.clear(); for(size_t i=0;i<g->v.size();i++) g->off.push_back(i*d.mt.size/g->v.size()); aggs.emplace_back(g); R[d.dst]=VA(g); }
          else if(a.k==V_AGG&&d.mt.k==MT::AGGR&&a.a->packed){ Agg*g=new Agg; g->v=a.a->v; aggs.emplace_back(g); R[d.dst]=VA(g); }
          else if((a.k==V_INT||a.k==V_FLT)&&d.mt.k==MT::AGGR&&d.mt.el.size()==2&&d.mt.el[0].k==MT::F32){ uint64_t u; if(a.k==V_FLT) memcpy(&u,&a.d,8); else u=a.i; float f[2]; memcpy(f,&u,8); Agg*g=new Agg; g->v={VF(f[0]),VF(f[1])}; aggs.emplace_back(g); R[d.dst]=VA(g); }
          else R[d.dst]=a; fr.pc++; break; }
      case OP_BR: jump(d.bbs[0],0); break;
      case OP_CBR: { const Val&c=get(d.ops[0]); bool b; if(c.k==V_INT) b=c.i&1; else if(c.k==V_UNDEF) viol("uninitialised","branch depends on an uninitialised value"); else if(c.k==V_SYM) b=branchExpr(symx[c.s]==zc->bv_val(1,1),svars(c)); else throw Unsup{"branch"}; jump(d.bbs[b?0:1],b?0:1); break; }
      case OP_SWITCH: { uint64_t v=conc(get(d.ops[0])); int bb=d.bbs[0],si=0; for(size_t i=0;i<d.cases.size();i++) if(d.cases[i].first==v){ bb=d.cases[i].second; si=i+1; break; } jump(bb,si); break; }
      case OP_RET: { Val v= d.ops.empty()?VU():get(d.ops[0]); int rs=fr.retSlot; popFrame(t); if(t.fr.empty()){ t.st=Thread::DONE; return; } if(rs>=0) t.regs[t.fr.back().base+rs]=v; break; }
      case OP_SELECT: { const Val&c=get(d.ops[0]); bool b; if(c.k==V_INT) b=c.i&1; else if(c.k==V_UNDEF){ R[d.dst]=VU(); fr.pc++; break; } else if(c.k==V_SYM) b=branchExpr(symx[c.s]==zc->bv_val(1,1),svars(c)); else throw Unsup{"select"}; Val r=get(d.ops[b?1:2]); R[d.dst]=r; fr.pc++; break; }
      case OP_EXTRV: { const Val&a=get(d.ops[0]); if(a.k==V_UNDEF){ R[d.dst]=VU(); fr.pc++; break; } Val v=a; for(unsigned i:d.idx){ if(v.k!=V_AGG){ v=VU(); break; } v=v.a->v[i]; } R[d.dst]=v; fr.pc++; break; }
      case OP_INSV: { const Val&a=get(d.ops[0]); Agg*g; if(a.k==V_AGG) g=new Agg(*a.a); else { g=new Agg; g->v.assign(d.mt.el.size(),VU()); } aggs.emplace_back(g); if(d.idx.size()!=1) throw Unsup{"nested insertvalue"}; g->v[d.idx[0]]=get(d.ops[1]); R[d.dst]=VA(g); fr.pc++; break; }
      case OP_EXTRE: { const Val&a=get(d.ops[0]); uint64_t i=conc(get(d.ops[1])); R[d.dst]= a.k==V_AGG&&i<a.a->v.size()? a.a->v[i]:VU(); fr.pc++; break; }
      case OP_INSE: { const Val&a=get(d.ops[0]); Agg*g; if(a.k==V_AGG) g=new Agg(*a.a); else { g=new Agg; g->v.assign(d.mt.el.size(),VU()); } aggs.emplace_back(g); uint64_t i=conc(get(d.ops[2])); g->v[i]=get(d.ops[1]); R[d.dst]=VA(g); fr.pc++; break; }
      case OP_SHUF: { const Val&a=get(d.ops[0]); const Val&b=get(d.ops[1]); int n=d.mt.el.size(); Agg*g=new Agg; aggs.emplace_back(g); for(int m:d.mask){ if(m<0) g->v.push_back(VU()); else if(m<n) g->v.push_back(a.k==V_AGG?a.a->v[m]:VU()); else g->v.push_back(b.k==V_AGG?b.a->v[m-n]:VU()); } R[d.dst]=VA(g); fr.pc++; break; }
      case OP_CMPXCHG: { uint64_t a=conc(get(d.ops[0])); t.atomic=true; Val old=load(a,d.mt); Val ex=get(d.ops[1]); bool eq=false; if(old.k==V_INT&&ex.k==V_INT) eq=old.i==ex.i; else if(old.k==ex.k){ if(old.k==V_POLY) eq=old.p==ex.p||pc.add(old.p,ex.p,-1)->t.empty(); else if(old.k==V_FLT) eq=old.d==ex.d; else if(old.k==V_SYM) eq=old.s==ex.s; } else if((old.k==V_INT&&ex.k==V_FLT)||(old.k==V_FLT&&ex.k==V_INT)){ uint64_t u=0; const Val&fv=old.k==V_FLT?old:ex; const Val&iv=old.k==V_FLT?ex:old; if(d.mt.size==8) memcpy(&u,&fv.d,8); else { float f=fv.d; memcpy(&u,&f,4);} eq=u==iv.i; }
          if(eq) store(a,d.mt,get(d.ops[2])); t.atomic=false; Agg*g=new Agg; aggs.emplace_back(g); g->v={old,VI(eq,1)}; R[d.dst]=VA(g); fr.pc++; break; }
      case OP_ARMW: { uint64_t a=conc(get(d.ops[0])); t.atomic=true; Val old=load(a,d.mt); Val v=get(d.ops[1]); Val nv; if(old.k==V_UNDEF||v.k==V_UNDEF) nv=VU(); else { DI x; x.w=d.mt.bits; switch(d.pred){ case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: x.op=OP_ADD; nv=iarith(x,old,v); break; case AtomicRMWInst::Sub: x.op=OP_SUB; nv=iarith(x,old,v); break; case AtomicRMWInst::And: x.op=OP_AND; nv=iarith(x,old,v); break; case AtomicRMWInst::Or: x.op=OP_OR; nv=iarith(x,old,v); break; case AtomicRMWInst::Xor: x.op=OP_XOR; nv=iarith(x,old,v); break; case AtomicRMWInst::FAdd: nv=farith(OP_FADD,old,v); break; case AtomicRMWInst::FSub: nv=farith(OP_FSUB,old,v); break; default: throw Unsup{"atomicrmw op"}; } } store(a,d.mt,nv); t.atomic=false; R[d.dst]=old; fr.pc++; break; }
      case OP_FREEZE: { Val v=get(d.ops[0]); R[d.dst]=v; fr.pc++; break; }
      case OP_NOP: case OP_FENCE: fr.pc++; break;
      case OP_UNREACH: viol("unreachable","execution reached code the compiler treats as unreachable");
      case OP_CALL: { int n=d.ops.size(); if(n>40) throw Unsup{"too many args"}; for(int i=0;i<n;i++) tmp[i]=get(d.ops[i]);
          if(d.h){ Val ret=VU(); int r=d.h(*this,t,d,tmp,n,ret); if(r==1) return; if(r==2) break; Frame&f2=t.fr.back(); if(d.dst>=0) t.regs[f2.base+d.dst]=ret; f2.pc++; break; }
          if(d.callee->F->isDeclaration()) throw Unsup{"call to unmodelled external function "+d.name};
          fr.pc++; push(t,d.callee,tmp,n,d.dst); break; }
      case OP_ICALL: { int n=d.ops.size()-1; for(int i=0;i<n;i++) tmp[i]=get(d.ops[i]); uint64_t a=conc(get(d.ops[n])); uint64_t fi=(a>>32)-0x40000000; if((a>>32)<0x40000000||fi>=funcs.size()) viol("bad-call","call through an invalid function pointer"); DFunc*f=funcs[fi]; 
          if(f->F->isDeclaration()){ auto it=ext.find(f->name); if(it==ext.end()) throw Unsup{"indirect call to "+f->name}; Val ret=VU(); int r=it->second(*this,t,d,tmp,n,ret); if(r==1) return; if(r==2) break; Frame&f2=t.fr.back(); if(d.dst>=0) t.regs[f2.base+d.dst]=ret; f2.pc++; break; }
          fr.pc++; push(t,f,tmp,n,d.dst); break; }
      default: throw Unsup{"opcode"};
    }
    if(t.yieldOnce){ return; }
  }
}
void mpiPoll(Engine&E);
void Engine::loop(){
  size_t last=0;
  for(;;){
    // all process main threads done?
    bool all=true; for(auto&t:threads) if(!t->team&&t->st!=Thread::DONE) all=false; if(all) return;
    if(nprocs>1) mpiPoll(*this);
    Thread*next=nullptr; size_t n=threads.size();
    std::vector<Thread*> run; for(size_t i=0;i<n;i++) if(threads[i]->st==Thread::RUN||(threads[i]->st==Thread::LOCKW&&!lockOwner.count(threads[i]->waitLock))) run.push_back(threads[i].get());
    if(run.empty()){ std::string w; for(auto&t:threads) if(t->st!=Thread::DONE){ w+=" rank "+std::to_string(t->proc->rank)+" waits in "+(t->what.empty()?"synchronisation":t->what)+";"; cur=t.get(); } viol("deadlock","no thread or rank can make progress:"+w); }
    bool yielded=false; for(auto*t:run) if(t->yieldOnce){ t->yieldOnce=false; yielded=true; last=t->id; }
    if(yielded&&run.size()>1){ std::vector<Thread*> o; for(auto*t:run) if((size_t)t->id!=last) o.push_back(t); next= sched==2? o[choice(o.size())] : o[0]; }
    else if(sched==1) next=run.back(); else if(sched==2&&run.size()>1&&nprocs==1&&preempt>0&&cur&&cur->st!=Thread::RUN) next=run[choice(run.size())];
    else if(sched==2&&run.size()>1&&nprocs>1&&preempt>0){ int c=choice(run.size()); if(c) preempt--; next=run[c]; }
    else next=run[0];
    if(next->st==Thread::LOCKW) next->st=Thread::RUN;
    last=next->id; runThread(next);
    if(next->st==Thread::DONE&&next->team){ Team*tm=next->team; if(++tm->doneCnt==tm->n){ tm->parent->st=Thread::RUN; } }
  }
}
int Engine::acquire(Thread&t,uint64_t lk){
  if(sched==2&&t.nth>1&&preempt>0){ // symbolic scheduling point
    if(!(t.waitLock==lk&&t.what=="sched")){ int c=choice(2); t.waitLock=lk; t.what="sched"; if(c){ preempt--; t.yieldOnce=true; return 1; } } }
  t.what.clear();
  auto it=lockOwner.find(lk); if(it!=lockOwner.end()){ if(it->second==t.id) viol("deadlock","a thread acquires a lock it already holds"); t.st=Thread::LOCKW; t.waitLock=lk; return 1; }
  lockOwner[lk]=t.id; auto li=lockIds.find(lk); int id= li==lockIds.end()? (lockIds[lk]=lockIds.size()+1):li->second; t.locks.push_back(id); t.lockset=lockset(t.locks); t.waitLock=0; return 0;
}
void Engine::release(Thread&t,uint64_t lk){ lockOwner.erase(lk); int id=lockIds[lk]; for(size_t i=0;i<t.locks.size();i++) if(t.locks[i]==id){ t.locks.erase(t.locks.begin()+i); break; } t.lockset=lockset(t.locks); }
void Engine::startTeam(Thread&t,DFunc*f,std::vector<Val> args){
  int n= t.team? 1 : nThreads; if(pushThreads>0&&!t.team){ n=pushThreads; pushThreads=0; } if(n<1) n=1; if(n>8) n=8; teams.emplace_back(new Team); Team*tm=teams.back().get(); tm->n=n; tm->parent=&t; tm->phase=phaseCtr++;
  t.st=Thread::WAITTEAM; Thread*tp=&t;
  for(int i=0;i<n;i++){ Thread*w=newThread(tp->proc); w->team=tm; w->tid=i; w->nth=n; uint64_t g=alloc(4,OK_STACK,true), b=alloc(4,OK_STACK,true); MT m; m.k=MT::INT; m.size=4; m.bits=32; Thread*sv=cur; cur=nullptr; cur=sv; { uint32_t idx=(g>>32)-1; memcpy(objs[idx]->data.data(),&i,4); } (void)m;
    std::vector<Val> a; a.push_back(VI(g,64)); a.push_back(VI(b,64)); for(auto&v:args) a.push_back(v); push(*w,f,a.data(),a.size(),-1); }
}
void Engine::runPath(const Prefix&p){
  resetPath(); prefix=p; pool_=p.wit; wcons.clear(); rngS=0x9e3779b97f4a7c15ULL; witOff=getenv("SX_NOWIT")!=nullptr; if(pool_.size()<4&&!witOff) pool_.resize(pool_.size()+12); st.paths++;
  procs.emplace_back(new Proc); procs[0]->rank=0; procs[0]->globals.assign(G,nullptr);
  auto it=job->par.find("procs"); nprocs= it==job->par.end()?1:it->second; 
  auto gp=[&](const char*k,int d){ auto i=job->par.find(k); return i==job->par.end()?d:i->second; };
  nThreads=gp("threads",1); sched=gp("sched",0); preempt=gp("preempt",2); trackRace=gp("race",1); maxSteps=gp("maxsteps",60000000); mpiMode=gp("mpimode",0);
  for(int i=1;i<nprocs;i++){ procs.emplace_back(new Proc); procs[i]->rank=i; procs[i]->globals.assign(G,nullptr); }
  extern void mpiReset(Engine&); mpiReset(*this);
  DFunc*f=fname[job->entry]; if(!f) throw Unsup{"no entry "+job->entry};
  try{
    for(int i=0;i<nprocs;i++){ Thread*t=newThread(procs[i].get()); push(*t,f,nullptr,0,-1); }
    loop();
    flushBatch();
    if(wantSample&&assertFails==0){ bool ok; std::map<int,double> mv; std::map<int,int64_t> ms; std::string in=modelInputs(nullptr,ok,&mv,&ms); if(ok){ std::string s=in; for(auto&o:observed){ double d= o.second.k==V_FLT?o.second.d: o.second.k==V_POLY? evalD(o.second.p,mv):0; char b[64]; snprintf(b,sizeof b,"%.17g",d); s+="O "+o.first+" "+b+"\n"; } samples.push_back(s); wantSample=false; } }
  }catch(PathEnd&e){
    if(e.why=="infeasible") st.infeasible++; else if(e.why=="assume") st.assumeEnd++; else if(e.why=="error-exit") { st.errexit++; try{ flushBatch(); }catch(Unsup&){ throw; }
        if(wantSample&&assertFails==0){ bool ok; std::map<int,double> mv; std::string in=modelInputs(nullptr,ok,&mv,nullptr); if(ok){ samples.push_back(in+"X error-exit 1\n"); wantSample=false; } } }
    else if(e.why=="timeout"){ frontier.push_back(p); notes.push_back("path cut by time limit"); st.paths--; }
    else if(e.why!="violation"&&e.why!="race") notes.push_back(e.why);
  }
}
