// Exact symbolic reals: Laurent polynomials over atoms (inputs, abs, sqrt, composite denominators).
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <string>
#include <set>
#include <deque>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cmath>
typedef mpq_class Q;
enum { S_NEG=1, S_ZERO=2, S_POS=4, S_ANY=7 };
static inline int flipMask(int m){ return ((m&1)<<2)|(m&2)|((m>>2)&1); }
struct Poly { std::vector<std::pair<int,Q>> t; bool isConst() const { return t.empty()||(t.size()==1&&t[0].first==0); } };
typedef std::vector<std::pair<int,int>> Mono; // (atom,exp) sorted
struct Atom { enum K {VAR,ABS,SQRT,DEF,I2R} k; std::string name; const Poly* arg=nullptr; int vid=-1; int sgn=S_ANY; std::vector<int> vars; int z3i=-1; bool comp=false; };

struct PolyCtx {
  std::deque<Poly> arena;
  std::vector<Atom> atoms;
  std::vector<Mono> monos; std::map<Mono,int> monoIdx;
  std::map<std::pair<int,int>,int> mulCache;
  std::map<std::string,int> atomIdx;
  std::unordered_map<int,const Poly*> subst; // VAR atom -> poly
  std::unordered_map<std::string,int> facts;
  void reset(){ arena.clear(); atoms.clear(); monos.clear(); monoIdx.clear(); mulCache.clear(); atomIdx.clear(); subst.clear(); facts.clear(); monos.push_back({}); monoIdx[{}]=0; }
  PolyCtx(){ reset(); }
  Poly* fresh(){ arena.emplace_back(); return &arena.back(); }
  int monoId(const Mono&m){ auto it=monoIdx.find(m); if(it!=monoIdx.end()) return it->second; int id=monos.size(); monos.push_back(m); monoIdx[m]=id; return id; }
  int monoMul(int a,int b){
    if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
    auto k=std::make_pair(a,b); auto it=mulCache.find(k); if(it!=mulCache.end()) return it->second;
    Mono r; const Mono&x=monos[a]; const Mono&y=monos[b]; size_t i=0,j=0;
    while(i<x.size()||j<y.size()){
      if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
      else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
      else { int e=x[i].second+y[j].second; if(e) r.push_back({x[i].first,e}); i++; j++; }
    }
    int id=monoId(r); mulCache[k]=id; return id;
  }
  const Poly* constant(const Q&q){ Poly*p=fresh(); if(q!=0) p->t.push_back({0,q}); return p; }
  const Poly* atomPoly(int a,int e=1){ Poly*p=fresh(); p->t.push_back({monoId({{a,e}}),Q(1)}); return p; }
  const Poly* add(const Poly*a,const Poly*b,int sb=1){
    Poly*p=fresh(); size_t i=0,j=0; p->t.reserve(a->t.size()+b->t.size());
    while(i<a->t.size()||j<b->t.size()){
      if(j>=b->t.size()||(i<a->t.size()&&a->t[i].first<b->t[j].first)) p->t.push_back(a->t[i++]);
      else if(i>=a->t.size()||b->t[j].first<a->t[i].first){ p->t.push_back(b->t[j++]); if(sb<0) p->t.back().second=-p->t.back().second; }
      else { Q q= sb>0? Q(a->t[i].second+b->t[j].second):Q(a->t[i].second-b->t[j].second); if(q!=0) p->t.push_back({a->t[i].first,q}); i++; j++; }
    }
    return p;
  }
  const Poly* scale(const Poly*a,const Q&q){ Poly*p=fresh(); if(q==0) return p; p->t=a->t; for(auto&x:p->t) x.second*=q; return p; }
  const Poly* mul(const Poly*a,const Poly*b){
    if(a->isConst()) return a->t.empty()? a: scale(b,a->t[0].second);
    if(b->isConst()) return b->t.empty()? b: scale(a,b->t[0].second);
    std::map<int,Q> r; for(auto&x:a->t) for(auto&y:b->t) r[monoMul(x.first,y.first)]+=x.second*y.second;
    // SQRT atoms: s^2 -> arg (normal form keeps exponent <2)
    Poly*p=fresh(); for(auto&x:r) if(x.second!=0) p->t.push_back(x);
    return reduceSqrt(p);
  }
  const Poly* reduceSqrt(const Poly*p){
    for(auto&x:p->t) for(auto&ae:monos[x.first]) if((atoms[ae.first].k==Atom::SQRT||atoms[ae.first].k==Atom::ABS)&&ae.second>=2){
      // rewrite this monomial: s^e = arg * s^(e-2); |q|^e = q^2 |q|^(e-2)
      std::vector<const Poly*> parts; Poly*rest=fresh(); const Poly*acc;
      for(auto&y:p->t) if(y.first!=x.first) rest->t.push_back(y);
      Mono m=monos[x.first]; Mono m2; for(auto z:m){ if(z.first==ae.first){ if(z.second>2) m2.push_back({z.first,z.second-2}); } else m2.push_back(z);}
      Poly*f=fresh(); f->t.push_back({monoId(m2),x.second});
      const Poly*arg=atoms[ae.first].arg; if(atoms[ae.first].k==Atom::ABS) arg=mul(arg,arg);
      acc=mul(f,arg); return reduceSqrt(add(rest,acc));
    }
    return p;
  }
  std::string key(const Poly*p){ std::string s; for(auto&x:p->t){ s+=std::to_string(x.first); s+=':'; s+=x.second.get_str(); s+=';'; } return s; }
  // canonical up to positive/negative scaling: leading coeff 1. returns sign of factor
  std::string canonKey(const Poly*p,int&sg){
    Q l=p->t.back().second; sg= l>0?1:-1; std::string s; for(auto&x:p->t){ s+=std::to_string(x.first); s+=':'; Q c=x.second/l; s+=c.get_str(); s+=';'; } return s;
  }
  int newVar(const std::string&name,int vid,int sgn){ Atom a; a.k=Atom::VAR; a.name=name; a.vid=vid; a.sgn=sgn; a.vars={vid}; atoms.push_back(a); return atoms.size()-1; }
  void closure(const Poly*p,std::set<int>&out){ for(auto&x:p->t) for(auto&ae:monos[x.first]) for(int v:atoms[ae.first].vars) out.insert(v); }
  int composite(Atom::K k,const Poly*arg){
    std::string kk=std::string(1,"VASDI"[k])+key(arg); auto it=atomIdx.find(kk); if(it!=atomIdx.end()) return it->second;
    Atom a; a.k=k; a.arg=arg; a.comp=true; std::set<int> vs; closure(arg,vs); a.vars.assign(vs.begin(),vs.end());
    a.name=std::string("t")+std::to_string(atoms.size()); if(k==Atom::ABS||k==Atom::SQRT) a.sgn=S_ZERO|S_POS; 
    atoms.push_back(a); atomIdx[kk]=atoms.size()-1; return atoms.size()-1;
  }
  bool touched(const Poly*p){ if(subst.empty()) return false; for(auto&x:p->t) for(auto&ae:monos[x.first]) { auto&a=atoms[ae.first]; if(a.k==Atom::VAR){ if(subst.count(ae.first)) return true; } else if(a.arg&&touched(a.arg)) return true; } return false; }
  // substitute until stable; sets ok=false if a denominator became zero
  const Poly* norm(const Poly*p){
    for(int it=0;it<64;it++){
      if(!touched(p)) return p;
      const Poly*r=fresh();
      for(auto&x:p->t){
        const Poly*m=constant(x.second);
        Mono mm=monos[x.first];
        for(auto&ae:mm){
          const Poly*f=nullptr; Atom a=atoms[ae.first];
          if(a.k==Atom::VAR){ auto s=subst.find(ae.first); if(s!=subst.end()) f=s->second; }
          else if(a.arg&&touched(a.arg)){ const Poly*na=norm(a.arg); 
            if(a.k==Atom::ABS) f=absP(na); else if(a.k==Atom::SQRT) f=sqrtP(na); else if(a.k==Atom::DEF) f=na; }
          if(!f) m=mul(m,atomPoly(ae.first,ae.second));
          else if(ae.second>0){ for(int e=0;e<ae.second;e++) m=mul(m,f); }
          else { const Poly*iv=div(constant(1),f); if(!iv) return p; for(int e=0;e<-ae.second;e++) m=mul(m,iv); }
        }
        r=add(r,m);
      }
      p=r;
    }
    return p;
  }
  const Poly* absP(const Poly*p){
    if(p->isConst()) return p->t.empty()?p:constant(abs(p->t[0].second));
    int m=quickSign(p); if(!(m&S_NEG)) return p; if(!(m&S_POS)) return scale(p,Q(-1));
    Q l=p->t.back().second; const Poly*c=scale(p,1/l); // leading 1
    return scale(atomPoly(composite(Atom::ABS,c)),abs(l));
  }
  const Poly* sqrtP(const Poly*p){ // p const perfect squares handled
    if(p->t.empty()) return p;
    if(p->isConst()){ Q q=p->t[0].second; if(q>0){ mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ mpz_class a=sqrt(n),b=sqrt(d); return constant(Q(a,b)); } } }
    if(p->t.size()==1){ // perfect square monomial
      auto&mo=monos[p->t[0].first]; Q q=p->t[0].second; bool sq=q>0; Mono h; for(auto&ae:mo){ if(ae.second%2) sq=false; h.push_back({ae.first,ae.second/2}); }
      if(sq){ mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ Poly*r=fresh(); mpz_class a=sqrt(n),b=sqrt(d); r->t.push_back({monoId(h),Q(a,b)}); return absP(r);} }
    }
    return atomPoly(composite(Atom::SQRT,p));
  }
  const Poly* div(const Poly*a,const Poly*b){ // nullptr if b==0
    if(b->t.empty()) return nullptr;
    if(b->isConst()) return scale(a,1/b->t[0].second);
    if(a->t.empty()) return a;
    if(b->t.size()==1){ Mono m=monos[b->t[0].first]; for(auto&x:m) x.second=-x.second; Poly*f=fresh(); f->t.push_back({monoId(m),1/b->t[0].second}); return mul(a,f); }
    // proportional?
    if(a->t.size()==b->t.size()){ Q r=a->t[0].second/b->t[0].second; bool ok=true; for(size_t i=0;i<a->t.size()&&ok;i++) ok=a->t[i].first==b->t[i].first&&a->t[i].second==r*b->t[i].second; if(ok) return constant(r); }
    Q l=b->t.back().second; const Poly*c=scale(b,1/l);
    return scale(mul(a,atomPoly(composite(Atom::DEF,c),-1)),1/l);
  }
  int atomSign(int a){
    Atom&A=atoms[a]; if(A.k==Atom::VAR||A.k==Atom::I2R){ return A.sgn; }
    if(A.k==Atom::DEF){ int m=quickSign(A.arg); return m; }
    int m=quickSign(A.arg); if(A.k==Atom::ABS) return ((m&(S_NEG|S_POS))?S_POS:0)|(m&S_ZERO); 
    return (m&S_POS)|(m&S_ZERO)|((m&(S_POS|S_ZERO))?0:S_ZERO);
  }
  int quickSign(const Poly*p,int depth=0){
    if(p->t.empty()) return S_ZERO;
    if(p->isConst()) return p->t[0].second>0?S_POS:S_NEG;
    int fm=S_ANY; int sg; auto it=facts.find(canonKey(p,sg)); if(it!=facts.end()) fm= sg>0?it->second:flipMask(it->second);
    int acc=0; // union of monomial signs
    bool zeroOnly=true, anyStrictP=false, anyStrictN=false;
    for(auto&x:p->t){
      int m= x.second>0?S_POS:S_NEG;
      for(auto&ae:monos[x.first]){
        int s=atomSign(ae.first); if(ae.second<0) s&=~S_ZERO;
        if(ae.second%2==0) s=((s&(S_NEG|S_POS))?S_POS:0)|(s&S_ZERO);
        int r=0; if((m&S_ZERO)||(s&S_ZERO)) r|=S_ZERO; if(((m&S_POS)&&(s&S_POS))||((m&S_NEG)&&(s&S_NEG))) r|=S_POS; if(((m&S_POS)&&(s&S_NEG))||((m&S_NEG)&&(s&S_POS))) r|=S_NEG; m=r;
      }
      acc|=m; if(m!=S_ZERO) zeroOnly=false; if(m==S_POS) anyStrictP=true; if(m==S_NEG) anyStrictN=true;
      if((acc&S_POS)&&(acc&S_NEG)&&p->t.size()>1) return fm;
    }
    int res;
    if(zeroOnly) res=S_ZERO;
    else if(p->t.size()==1) res=acc;
    else if(!(acc&S_NEG)) res= anyStrictP?S_POS:(S_POS|S_ZERO);
    else if(!(acc&S_POS)) res= anyStrictN?S_NEG:(S_NEG|S_ZERO);
    else res=S_ANY;
    int r=res&fm; return r?r:fm;
  }
  std::string str(const Poly*p){
    if(p->t.empty()) return "0"; std::string s;
    for(auto&x:p->t){ if(!s.empty()) s+=" + "; std::string c=x.second.get_str(); if(x.first==0){ s+=c; continue; } if(c!="1") s+=c+"*"; bool f=true; for(auto&ae:monos[x.first]){ if(!f) s+="*"; f=false; s+=astr(ae.first); if(ae.second!=1) s+="^"+std::to_string(ae.second);} if(s.size()>400){ s+="..."; break; } }
    return s;
  }
  std::string astr(int a){ Atom&A=atoms[a]; switch(A.k){ case Atom::VAR: case Atom::I2R: return A.name; case Atom::ABS: return "|"+str(A.arg)+"|"; case Atom::SQRT: return "sqrt("+str(A.arg)+")"; case Atom::DEF: return "("+str(A.arg)+")"; } return "?"; }
};
