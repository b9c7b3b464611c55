// bitflow: abstract value algebra.
//
// Abstract domain (reduced product):
//   * bit provenance: every bit of every value is a constant, a 256-entry truth table over
//     ONE input byte (value-set domain), a conjunction / exclusive-or of such bits, a bit of a
//     numbered term (value numbering), a numbered comparison, or opaque/uninitialised;
//   * value sets: for each input byte, the set of values it may have here (256-bit set);
//   * affine forms:  const + sum f_v(byte v) + sum coef*atom  (mod 2^w)  with interval evaluation;
//   * intervals for numbered terms.
// Everything is hash-consed, so equal ids mean equal abstract values.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <functional>
#include <random>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t Bit;   // node<<1 | negated;   0 = false, 1 = true
typedef int ValId;

struct T256 {
  u64 w[4];
  bool operator==(const T256&o) const { return !memcmp(w,o.w,sizeof w); }
  bool operator!=(const T256&o) const { return !(*this==o); }
  bool get(unsigned i) const { return (w[i>>6]>>(i&63))&1; }
  void set(unsigned i){ w[i>>6] |= (u64)1<<(i&63); }
  bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
  bool full() const { return (w[0]&w[1]&w[2]&w[3])==~(u64)0; }
  int count() const { int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(w[i]); return c; }
  T256 operator&(const T256&o) const { return {w[0]&o.w[0],w[1]&o.w[1],w[2]&o.w[2],w[3]&o.w[3]}; }
  T256 operator|(const T256&o) const { return {w[0]|o.w[0],w[1]|o.w[1],w[2]|o.w[2],w[3]|o.w[3]}; }
  T256 operator^(const T256&o) const { return {w[0]^o.w[0],w[1]^o.w[1],w[2]^o.w[2],w[3]^o.w[3]}; }
  T256 operator~() const { return {~w[0],~w[1],~w[2],~w[3]}; }
};
static const T256 T_FULL={{~(u64)0,~(u64)0,~(u64)0,~(u64)0}};
static const T256 T_EMPTY={{0,0,0,0}};

inline size_t hmix(size_t h,size_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h; }
struct VecHash { size_t operator()(const std::vector<int64_t>&v) const { size_t h=v.size(); for(auto x:v) h=hmix(h,(size_t)x*0x9E3779B97F4A7C15ULL); return h; } };

enum NKind : uint8_t { N_CONST,N_FUN,N_AND,N_XOR,N_TERM,N_ULT,N_EQ,N_OPAQUE,N_UNINIT };
struct Node { NKind k; int a=0,b=0; T256 t; std::vector<Bit> ch; };
enum TOp : uint8_t { T_LIN, T_UDIV, T_UREM, T_MUL, T_SHL, T_LSHR, T_ASHR, T_SDIV, T_SREM, T_OPQ };
struct Lin { std::map<ValId,i128> m; i128 c=0; };
struct Term { TOp op; int w; Lin lin; ValId a=-1,b=-1; int uid=0; u128 lo=0,hi=0; ValId val=-1; std::string name; };
enum VKind : uint8_t { V_INT, V_PTR, V_AGG, V_FRAG };
struct ValData {
  VKind k; int w=0; std::vector<Bit> bits;
  int obj=0; ValId off=-1;            // V_PTR
  std::vector<ValId> el;              // V_AGG ; V_FRAG: el[0]=pointer, w=index
  int var=-2;                         // V_INT: -1 const, >=0 single input byte, -2 other
  bool hasTerm=false,hasUninit=false; u128 cval=0;
  int nvars=0;
  mutable std::shared_ptr<std::vector<u128>> tab;
};

struct Facts {
  std::map<int,T256> sets;
  std::map<int,bool> nf;
  std::map<ValId,std::pair<u128,u128>> iv;
  bool exact=true;
  // caches (facts are immutable once shared)
  mutable std::unordered_map<int,Bit> bc;
  mutable std::unordered_map<ValId,std::pair<u128,u128>> rc;
  mutable std::unordered_map<ValId,ValId> vc;
  const T256& set(int v) const { auto it=sets.find(v); return it==sets.end()?T_FULL:it->second; }
  bool sameAs(const Facts&o) const { return sets==o.sets && nf==o.nf && iv==o.iv; }
  std::shared_ptr<Facts> clone() const { auto p=std::make_shared<Facts>(); p->sets=sets;p->nf=nf;p->iv=iv;p->exact=exact; return p; }
};
typedef std::shared_ptr<Facts> FactsP;

static inline u128 maskw(int w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline std::string u128s(u128 v){ if(!v) return "0"; std::string s; while(v){ s+=char('0'+(int)(v%10)); v/=10;} std::reverse(s.begin(),s.end()); return s; }

struct Algebra {
  std::deque<Node> N; std::deque<ValData> V; std::deque<Term> Tm;
  std::vector<std::string> varName;
  std::unordered_map<std::vector<int64_t>,int,VecHash> nmap,vmap,tmap;
  int uid=0;
  Algebra(){ reset(); }
  void reset(){ N.clear();V.clear();Tm.clear();varName.clear();nmap.clear();vmap.clear();tmap.clear();uid=0;
    N.push_back({N_CONST}); N.push_back({N_UNINIT}); }
  static constexpr Bit F0=0,T1=1,UNI=2;
  int newVar(const std::string&n){ varName.push_back(n); return (int)varName.size()-1; }
  // ---------------------------------------------------------------- bits
  Bit mkFun(int v,T256 t){
    if(t.empty()) return 0; if(t.full()) return 1;
    bool neg=t.get(0); if(neg) t=~t;
    std::vector<int64_t> k={1,v,(int64_t)t.w[0],(int64_t)t.w[1],(int64_t)t.w[2],(int64_t)t.w[3]};
    auto it=nmap.find(k); int id;
    if(it!=nmap.end()) id=it->second; else { id=N.size(); Node n{N_FUN}; n.a=v; n.t=t; N.push_back(n); nmap.emplace(std::move(k),id); }
    return id*2+neg;
  }
  bool isFun(Bit b,int&v,T256&t) const { const Node&n=N[b>>1]; if(n.k!=N_FUN) return false; v=n.a; t=(b&1)?~n.t:n.t; return true; }
  static bool isNot(Bit a,Bit b){ return a==(b^1); }
  Bit mkXor(Bit a,Bit b){
    if(a<2) return b==UNI||b==(UNI|1)?UNI:(b^a); if(b<2) return a==(UNI|1)?UNI:(a^b);
    if((a>>1)==1||(b>>1)==1) return UNI;
    if(a==b) return 0; if(isNot(a,b)) return 1;
    int va,vb; T256 ta,tb;
    if(isFun(a,va,ta)&&isFun(b,vb,tb)&&va==vb) return mkFun(va,ta^tb);
    bool neg=(a&1)^(b&1); a&=~1u; b&=~1u; if(a>b) std::swap(a,b);
    // x ^ (x ^ y) = y
    { const Node&nb=N[b>>1]; if(nb.k==N_XOR){ if((Bit)nb.a==a) return nb.b^(Bit)neg; if((Bit)nb.b==a) return nb.a^(Bit)neg; }
      const Node&na=N[a>>1]; if(na.k==N_XOR){ if((Bit)na.a==b) return na.b^(Bit)neg; if((Bit)na.b==b) return na.a^(Bit)neg; } }
    std::vector<int64_t> k={3,a,b}; auto it=nmap.find(k); int id;
    if(it!=nmap.end()) id=it->second; else { id=N.size(); Node n{N_XOR}; n.a=a;n.b=b; N.push_back(n); nmap.emplace(std::move(k),id);}    
    return id*2+neg;
  }
  Bit mkAndN(std::vector<Bit> in){
    std::map<int,T256> fv; std::vector<Bit> oth; bool uni=false;
    for(size_t i=0;i<in.size();i++){ Bit b=in[i]; if(b==0) return 0; if(b==1) continue; const Node&n=N[b>>1];
      if(n.k==N_UNINIT){ uni=true; continue; }
      if(n.k==N_FUN){ T256 t=(b&1)?~n.t:n.t; auto it=fv.find(n.a); if(it==fv.end()) fv[n.a]=t; else it->second=it->second&t; if(fv[n.a].empty()) return 0; }
      else if(n.k==N_AND&&!(b&1)){ for(Bit c:n.ch) in.push_back(c); }
      else oth.push_back(b); }
    std::sort(oth.begin(),oth.end()); oth.erase(std::unique(oth.begin(),oth.end()),oth.end());
    for(size_t i=0;i+1<oth.size();i++) if(isNot(oth[i],oth[i+1])) return 0;
    std::vector<Bit> ch; for(auto&p:fv){ Bit b=mkFun(p.first,p.second); if(b==0) return 0; if(b!=1) ch.push_back(b); }
    // absorption: AND(x, !AND(x,y,..)) -> drop x inside ; AND(x, !AND(!x,..)) -> drop that conjunct
    for(auto&b:oth){ if((b&1)&&N[b>>1].k==N_AND){
        std::vector<Bit> rest; bool sat=false;
        for(Bit c:N[b>>1].ch){ bool implied=false; int vc; T256 tc;
          if(std::binary_search(oth.begin(),oth.end(),c)) implied=true;
          else if(std::binary_search(oth.begin(),oth.end(),c^1)) sat=true;
          else if(isFun(c,vc,tc)){ auto it=fv.find(vc); if(it!=fv.end()){ if((it->second&tc)==it->second) implied=true; else if((it->second&tc).empty()) sat=true; } }
          if(!implied) rest.push_back(c); }
        if(sat){ b=1; continue; }
        if(rest.size()!=N[b>>1].ch.size()){ Bit nb=mkAndN(rest)^1; b=nb; } } }
    bool again=false; std::vector<Bit> o2; for(Bit b:oth){ if(b==0) return 0; if(b==1) continue; const Node&n=N[b>>1]; if(n.k==N_FUN||(n.k==N_AND&&!(b&1))) again=true; o2.push_back(b); }
    if(again){ for(Bit b:ch) o2.push_back(b); if(uni) o2.push_back(UNI); return mkAndN(o2); }
    for(Bit b:o2) ch.push_back(b);
    if(uni) return UNI;
    if(ch.empty()) return 1; if(ch.size()==1) return ch[0];
    std::sort(ch.begin(),ch.end());
    std::vector<int64_t> k={2}; for(Bit b:ch) k.push_back(b);
    auto it=nmap.find(k); int id; if(it!=nmap.end()) id=it->second; else { id=N.size(); Node n{N_AND}; n.ch=ch; N.push_back(n); nmap.emplace(std::move(k),id);}    
    return id*2;
  }
  Bit mkAnd(Bit a,Bit b){ if(a==0||b==0) return 0; if(a==1) return b; if(b==1) return a; if(a==b) return a; if(isNot(a,b)) return (a>>1)==1?UNI:0; return mkAndN({a,b}); }
  Bit nt(Bit a){ return (a>>1)==1?UNI:(a^1); }
  Bit mkOr(Bit a,Bit b){ return nt(mkAnd(nt(a),nt(b))); }
  Bit mkMux(Bit c,Bit a,Bit b){ if(c==1) return a; if(c==0) return b; if(a==b) return a; if((c>>1)==1) return UNI;
    if(a==1&&b==0) return c; if(a==0&&b==1) return nt(c);
    return mkOr(mkAnd(c,a),mkAnd(nt(c),b)); }
  Bit mkOpaque(){ Node n{N_OPAQUE}; n.a=uid++; N.push_back(n); return (N.size()-1)*2; }
  Bit mkTermBit(int t,int i){ std::vector<int64_t> k={4,t,i}; auto it=nmap.find(k); int id; if(it!=nmap.end()) id=it->second; else { id=N.size(); Node n{N_TERM}; n.a=t;n.b=i; N.push_back(n); nmap.emplace(std::move(k),id);} return id*2; }
  Bit mkCmp(NKind kd,ValId a,ValId b){ if(kd==N_EQ&&a>b) std::swap(a,b); std::vector<int64_t> k={5,kd,a,b}; auto it=nmap.find(k); int id; if(it!=nmap.end()) id=it->second; else { id=N.size(); Node n{kd}; n.a=a;n.b=b; N.push_back(n); nmap.emplace(std::move(k),id);} return id*2; }
  // ---------------------------------------------------------------- values
  ValId mkInt(const std::vector<Bit>&bits){
    std::vector<int64_t> k; k.reserve(bits.size()+1); k.push_back(0); for(Bit b:bits) k.push_back(b);
    auto it=vmap.find(k); if(it!=vmap.end()) return it->second;
    ValData d; d.k=V_INT; d.w=bits.size(); d.bits=bits; int var=-1; bool cst=true;
    std::vector<int> vs;
    for(size_t i=0;i<bits.size();i++){ Bit b=bits[i]; if(b<2){ if(b&&i<128) d.cval|=(u128)1<<i; continue; } cst=false; const Node&n=N[b>>1];
      if(n.k==N_FUN){ if(var==-1) var=n.a; else if(var!=n.a) var=-2; vs.push_back(n.a); }
      else { if(n.k==N_UNINIT) d.hasUninit=true; if(n.k==N_TERM||n.k==N_OPAQUE||n.k==N_ULT||n.k==N_EQ) d.hasTerm=true; else vs.push_back(-5); var=-2; } }
    std::sort(vs.begin(),vs.end()); d.nvars=std::unique(vs.begin(),vs.end())-vs.begin();
    d.var=cst?-1:var; int id=V.size(); V.push_back(d); vmap.emplace(std::move(k),id); return id;
  }
  ValId mkConst(int w,u128 v){ v&=maskw(w); std::vector<Bit> b(w); for(int i=0;i<w;i++) b[i]=(i<128)?(Bit)((v>>i)&1):0; return mkInt(b); }
  ValId mkUninit(int w){ return mkInt(std::vector<Bit>(w,UNI)); }
  ValId mkPtr(int obj,ValId off){ std::vector<int64_t> k={1,obj,off}; auto it=vmap.find(k); if(it!=vmap.end()) return it->second; ValData d; d.k=V_PTR; d.w=64; d.obj=obj; d.off=off; int id=V.size(); V.push_back(d); vmap.emplace(k,id); return id; }
  ValId mkPtrC(int obj,int64_t off){ return mkPtr(obj,mkConst(64,(u128)(u64)off)); }
  ValId mkAgg(const std::vector<ValId>&el){ std::vector<int64_t> k={2}; for(auto e:el) k.push_back(e); auto it=vmap.find(k); if(it!=vmap.end()) return it->second; ValData d; d.k=V_AGG; d.el=el; int id=V.size(); V.push_back(d); vmap.emplace(k,id); return id; }
  ValId mkFrag(ValId p,int i){ std::vector<int64_t> k={3,p,i}; auto it=vmap.find(k); if(it!=vmap.end()) return it->second; ValData d; d.k=V_FRAG; d.w=i; d.el={p}; int id=V.size(); V.push_back(d); vmap.emplace(k,id); return id; }
  ValId mkByte(int var){ std::vector<Bit> b(8); for(int i=0;i<8;i++){ T256 t=T_EMPTY; for(int x=0;x<256;x++) if((x>>i)&1) t.set(x); b[i]=mkFun(var,t);} return mkInt(b); }
  bool isConst(ValId v) const { return V[v].k==V_INT&&V[v].var==-1; }
  u128 cval(ValId v) const { return V[v].cval; }
  i128 sval(ValId v) const { int w=V[v].w; u128 c=V[v].cval; if(w<128&&(c>>(w-1))&1) return (i128)c-((i128)1<<w); return (i128)c; }
  const std::vector<u128>& table(ValId v){ // V[v].var>=0
    if(V[v].tab) return *V[v].tab; auto p=std::make_shared<std::vector<u128>>(256,0); const ValData&d=V[v];
    for(int i=0;i<d.w&&i<128;i++){ Bit b=d.bits[i]; if(b==0) continue; if(b==1){ for(auto&x:*p) x|=(u128)1<<i; continue; }
      const Node&n=N[b>>1]; T256 t=(b&1)?~n.t:n.t; for(int x=0;x<256;x++) if(t.get(x)) (*p)[x]|=(u128)1<<i; }
    V[v].tab=p; return *p; }
  ValId fromTable(int var,int w,const std::vector<u128>&t){ std::vector<Bit> b(w); for(int i=0;i<w;i++){ T256 q=T_EMPTY; for(int x=0;x<256;x++) if((t[x]>>i)&1) q.set(x); b[i]=mkFun(var,q);} return mkInt(b); }
  // terms
  ValId termVal(int t){ if(Tm[t].val>=0) return Tm[t].val; std::vector<Bit> b(Tm[t].w); for(int i=0;i<Tm[t].w;i++) b[i]=mkTermBit(t,i); ValId r=mkInt(b); Tm[t].val=r; return r; }
  int newOpaqueTerm(int w,u128 lo,u128 hi,const std::string&nm){ Term t; t.op=T_OPQ; t.w=w; t.lo=lo; t.hi=hi; t.uid=uid++; t.name=nm; Tm.push_back(t); return Tm.size()-1; }
  ValId opaque(int w,const std::string&nm="?"){ return termVal(newOpaqueTerm(w,0,maskw(w),nm)); }
  ValId opaqueR(int w,u128 lo,u128 hi,const std::string&nm="?"){ return termVal(newOpaqueTerm(w,lo,hi,nm)); }
  int mkBinTerm(TOp op,int w,ValId a,ValId b){ if(op==T_MUL&&a>b) std::swap(a,b); std::vector<int64_t> k={op,w,a,b}; auto it=tmap.find(k); if(it!=tmap.end()) return it->second; Term t; t.op=op;t.w=w;t.a=a;t.b=b; Tm.push_back(t); int id=Tm.size()-1; tmap.emplace(k,id); return id; }
  int termOf(ValId v) const { const ValData&d=V[v]; if(d.k!=V_INT||d.w==0) return -1; Bit b=d.bits[0]; if(b<2||(b&1)) return -1; const Node&n=N[b>>1]; if(n.k!=N_TERM||n.b!=0) return -1; int t=n.a;
    if(Tm[t].w!=d.w) return -1; for(int i=0;i<d.w;i++){ Bit c=d.bits[i]; if(c<2||(c&1)) return -1; const Node&m=N[c>>1]; if(m.k!=N_TERM||m.a!=t||m.b!=i) return -1; } return t; }
  // prefix TERM bits 0..k-1, remaining bits all zero (ext=0) or all one(ext=1)
  int termPrefix(ValId v,int&k,int&ext) const { const ValData&d=V[v]; if(d.k!=V_INT||d.w==0) return -1; Bit b=d.bits[0]; if(b<2||(b&1)) return -1; const Node&n=N[b>>1]; if(n.k!=N_TERM||n.b!=0) return -1; int t=n.a; int i=0;
    for(;i<d.w;i++){ Bit c=d.bits[i]; if(c<2||(c&1)) break; const Node&m=N[c>>1]; if(m.k!=N_TERM||m.a!=t||m.b!=i) break; }
    k=i; ext=0; if(i<d.w){ ext=d.bits[i]; if(ext>1) return -1; for(;i<d.w;i++) if(d.bits[i]!=(Bit)ext) return -1; } return t; }

  // ---------------------------------------------------------------- evaluation under facts
  Bit ev(const Facts&F,Bit b){
    if(b<4) return b; int n=b>>1; Bit neg=b&1;
    auto it=F.bc.find(n); if(it!=F.bc.end()) return it->second^neg;
    F.bc[n]=n*2; Bit r=evn(F,n); F.bc[n]=r; return r==UNI?UNI:(r^neg);
  }
  Bit evn(const Facts&F,int n){
    auto f=F.nf.find(n); if(f!=F.nf.end()) return f->second;
    NKind k=N[n].k;
    if(k==N_FUN){ const T256&S=F.set(N[n].a); T256 x=N[n].t&S; if(x.empty()) return 0; if(x==S) return 1; return n*2; }
    Bit r=n*2;
    if(k==N_AND){ std::vector<Bit> ch=N[n].ch; bool diff=false; for(auto&c:ch){ Bit e=ev(F,c); if(e==0) return 0; if(e!=c){diff=true;c=e;} } if(diff) r=mkAndN(ch); }
    else if(k==N_XOR){ Bit a=N[n].a,b=N[n].b; Bit ea=ev(F,a),eb=ev(F,b); if(ea!=a||eb!=b) r=mkXor(ea,eb); else r=n*2; }
    else if(k==N_TERM){ int t=N[n].a,i=N[n].b; auto rg=range(F,termVal(t)); if(rg.first==rg.second) return (rg.first>>i)&1; if(i<127&&(rg.second>>i)==0) return 0; if((rg.first>>i)==(rg.second>>i)) return (rg.first>>i)&1; return n*2; }
    else if(k==N_ULT){ ValId a=refresh(F,N[n].a),b=refresh(F,N[n].b); r=ult(F,a,b,false); }
    else if(k==N_EQ){ ValId a=refresh(F,N[n].a),b=refresh(F,N[n].b); r=eq(F,a,b); }
    if(r!=(Bit)(n*2)&&r>3) { Bit q=ev(F,r); return q; }
    return r;
  }
  ValId refresh(const Facts&F,ValId v){
    ValData*d=&V[v]; if(d->k==V_PTR){ ValId o=refresh(F,d->off); if(o==V[v].off) return v; return mkPtr(V[v].obj,o);}    
    if(d->k==V_AGG){ auto el=d->el; bool c=false; for(auto&e:el){ ValId r=refresh(F,e); if(r!=e){e=r;c=true;} } return c?mkAgg(el):v; }
    if(d->k!=V_INT||d->var==-1) return v;
    auto it=F.vc.find(v); if(it!=F.vc.end()) return it->second;
    int w=d->w; ValId r=v;
    if(d->var>=0){ // single variable: constant over the value set?
      const T256&S=F.set(d->var); auto&t=table(v); bool first=true,same=true; u128 c=0; for(int x=0;x<256&&same;x++) if(S.get(x)){ if(first){c=t[x];first=false;} else if(t[x]!=c) same=false; }
      if(same) r=mkConst(w,c); else r=evBits(F,v);
    } else { if(d->hasTerm){ auto rg=range(F,v); if(rg.first==rg.second){ r=mkConst(w,rg.first); F.vc[v]=r; return r; } }
      int tt=termOf(v);
      if(tt<0) r=evBits(F,v);
      else if(Tm[tt].op==T_LIN){ // substitute atoms that became constant
        Lin l=Tm[tt].lin; bool ch=false; Lin l2; l2.c=l.c; std::vector<std::pair<ValId,i128>> add;
        for(auto&p:l.m){ ValId a=refresh(F,p.first); if(a!=p.first&&(isConst(a))){ l2.c+=p.second*(i128)cval(a); ch=true; } else l2.m[p.first]+=p.second; }
        if(ch) r=mkLin(w,l2); } }
    F.vc[v]=r; return r;
  }
  ValId evBits(const Facts&F,ValId v){ std::vector<Bit> b=V[v].bits; bool c=false; for(auto&x:b){ Bit e=ev(F,x); if(e!=x){x=e;c=true;} } return c?mkInt(b):v; }

  // true-integer interval of one affine summand set
  struct TR { bool ok; i128 lo,hi; };
  // integer value of a one-byte atom for every value of its byte: differences taken to the nearest
  // representative, or the unsigned reading where that spans no more
  void atomInts(const Facts&F,ValId a,int w,i128*o){ const ValData&d=V[a]; const T256&S=F.set(d.var); auto&t=table(a); u128 M=maskw(w),half=(u128)1<<(w-1),bu=0; i128 base=0,lo=0,hi=0; u128 ul=0,uh=0; bool first=true;
    for(int x=0;x<256;x++) if(S.get(x)){ u128 u=t[x]&M; if(first){ first=false; bu=u; base=(bu&half)?(i128)bu-(i128)M-1:(i128)bu; lo=hi=base; ul=uh=u; } else { u128 df=(u-bu)&M; i128 q=base+((df&half)?(i128)df-(i128)M-1:(i128)df); lo=std::min(lo,q); hi=std::max(hi,q); ul=std::min(ul,u); uh=std::max(uh,u); } }
    bool uns=!first&&w<=100&&(i128)(uh-ul)<=hi-lo;
    for(int x=0;x<256;x++){ u128 u=t[x]&M,df=(u-bu)&M; o[x]=uns?(i128)u:base+((df&half)?(i128)df-(i128)M-1:(i128)df); } }
  TR atomRange(const Facts&F,ValId a,int w){ // value of atom as integer (mod 2^w representative)
    const ValData&d=V[a];
    if(d.var>=0){ const T256&S=F.set(d.var); i128 q[256]; atomInts(F,a,w,q); bool first=true; i128 lo=0,hi=0;
      for(int x=0;x<256;x++) if(S.get(x)){ if(first){ first=false; lo=hi=q[x]; } else { lo=std::min(lo,q[x]); hi=std::max(hi,q[x]); } }
      return {true,lo,hi}; }
    auto r=range(F,a); if(r.second>>100) return {false,0,0}; return {true,(i128)r.first,(i128)r.second}; }
  TR linRange(const Facts&F,const Lin&l,int w){ if(w>100) return {false,0,0}; i128 lo=l.c,hi=l.c; const i128 big=(i128)1<<115;
    std::map<int,std::vector<std::pair<ValId,i128>>> byvar; for(auto&p:l.m) if(V[p.first].var>=0) byvar[V[p.first].var].push_back({p.first,p.second});
    for(auto&g:byvar) if(g.second.size()>1){ const T256&S=F.set(g.first); std::vector<i128> sum(256,0),q(256,0); for(auto&p:g.second){ i128 c=p.second; if(w>66) return {false,0,0}; if(c>((i128)1<<48)||c<-((i128)1<<48)) return {false,0,0}; atomInts(F,p.first,w,q.data()); for(int x=0;x<256;x++) if(S.get(x)) sum[x]+=c*q[x]; }
      bool first=true; i128 a=0,b=0; for(int x=0;x<256;x++) if(S.get(x)){ if(first){ a=b=sum[x]; first=false; } else { a=std::min(a,sum[x]); b=std::max(b,sum[x]); } } lo+=a; hi+=b; if(lo<-big||hi>big) return {false,0,0}; }
    for(auto&p:l.m){ if(V[p.first].var>=0&&byvar[V[p.first].var].size()>1) continue; auto r=atomRange(F,p.first,w); if(!r.ok) return r; i128 c=p.second; if(c>((i128)1<<66)||c<-((i128)1<<66)) return {false,0,0};
      i128 span=r.hi>-r.lo?r.hi:-r.lo; if(span>0&&(c>0?c:-c)>(((i128)1<<110)/span)) return {false,0,0};
      i128 x=c*r.lo,y=c*r.hi; if(x>y) std::swap(x,y); lo+=x; hi+=y; if(lo<-big||hi>big) return {false,0,0}; } return {true,lo,hi}; }
  static i128 fdiv(i128 a,int w){ return a>>w; }
  std::pair<u128,u128> range(const Facts&F,ValId v){
    ValData*d=&V[v]; if(d->k!=V_INT) return {0,~(u128)0}; if(d->var==-1) return {d->cval,d->cval};
    auto it=F.rc.find(v); if(it!=F.rc.end()) return it->second;
    int w=d->w; u128 lo=0,hi=maskw(w);
    if(d->var>=0){ const T256&S=F.set(d->var); auto&t=table(v); bool first=true; for(int x=0;x<256;x++) if(S.get(x)){ if(first){lo=hi=t[x];first=false;} else { lo=std::min(lo,t[x]); hi=std::max(hi,t[x]); } } }
    else {
      int k=0,ext=0; int t=termPrefix(v,k,ext);
      if(t>=0&&(k==w||ext==0)){ int tw=Tm[t].w; auto r=termRange(F,t); if(k==tw){ lo=r.first; hi=r.second; } else { if(r.second<=maskw(k)){lo=r.first;hi=r.second;} else { lo=0; hi=maskw(k);} } }
      else { F.rc[v]={0,maskw(w)}; u128 l=0,h=0; for(int i=0;i<w;i++){ Bit b=ev(F,V[v].bits[i]); if(b==1){ l|=(u128)1<<i; h|=(u128)1<<i; } else if(b!=0) h|=(u128)1<<i; } lo=l; hi=h; }
    }
    auto q=F.iv.find(v); if(q!=F.iv.end()){ if(q->second.first>lo) lo=q->second.first; if(q->second.second<hi) hi=q->second.second; if(lo>hi){ lo=hi; } }
    F.rc[v]={lo,hi}; return {lo,hi};
  }
  std::pair<u128,u128> termRange(const Facts&F,int t){
    TOp op=Tm[t].op; int w=Tm[t].w; u128 lo=0,hi=maskw(w); ValId tv=termVal(t);
    if(op==T_OPQ){ lo=Tm[t].lo; hi=Tm[t].hi; }
    else if(op==T_LIN){ Lin l=Tm[t].lin; auto r=linRange(F,l,w); if(r.ok&&fdiv(r.lo,w)==fdiv(r.hi,w)){ lo=(u128)r.lo&maskw(w); hi=(u128)r.hi&maskw(w);} }
    else { auto a=range(F,Tm[t].a), b=range(F,Tm[t].b);
      if(op==T_UDIV){ hi=b.first?a.second/b.first:a.second; lo=b.second?a.first/b.second:0; }
      else if(op==T_UREM){ hi=a.second; if(b.second&&b.second-1<hi) hi=b.second-1; }
      else if(op==T_LSHR){ hi=a.second; if(b.first<128) hi=a.second>>(int)b.first; }
      else if(op==T_MUL){ if(w<=64&&a.second*b.second<=maskw(w)){ lo=a.first*b.first; hi=a.second*b.second; } } }
    auto q=F.iv.find(tv); if(q!=F.iv.end()){ if(q->second.first>lo) lo=q->second.first; if(q->second.second<hi) hi=q->second.second; if(lo>hi) lo=hi; }
    return {lo,hi};
  }
  bool srange(const Facts&F,ValId v,i128&lo,i128&hi){ int w=V[v].w; if(w>100) return false;
    int t=termOf(v); if(t>=0&&Tm[t].op==T_LIN&&F.iv.find(v)==F.iv.end()){ Lin l=Tm[t].lin; auto r=linRange(F,l,w); i128 h=(i128)1<<(w-1); if(r.ok&&fdiv(r.lo+h,w)==fdiv(r.hi+h,w)){ i128 s=fdiv(r.lo+h,w); lo=r.lo-(s<<w); hi=r.hi-(s<<w); return true; } }
    if(V[v].var>=0){ const T256&S=F.set(V[v].var); auto&tb=table(v); bool first=true; for(int x=0;x<256;x++) if(S.get(x)){ i128 q=(tb[x]>>(w-1))&1?(i128)tb[x]-((i128)1<<w):(i128)tb[x]; if(first){lo=hi=q;first=false;} else {lo=std::min(lo,q);hi=std::max(hi,q);} } return !first; }
    auto r=range(F,v); u128 half=(u128)1<<(w-1);
    if(r.second<half){ lo=r.first;hi=r.second; return true; } if(r.first>=half){ lo=(i128)r.first-((i128)1<<w); hi=(i128)r.second-((i128)1<<w); return true; }
    lo=-(i128)half; hi=(i128)half-1; return true; }

  // ---------------------------------------------------------------- affine forms
  void linAdd(Lin&l,ValId atom,i128 c){ if(c==0) return; auto&x=l.m[atom]; x+=c; if(x==0) l.m.erase(atom); }
  i128 smod(i128 c,int w){ if(w>=127) return c; u128 u=(u128)c&maskw(w); if((u>>(w-1))&1) return (i128)u-((i128)1<<w); return (i128)u; }
  Lin asLin(const Facts&F,ValId v,int w){ // v has width w
    Lin l; const ValData&d=V[v]; if(d.var==-1){ l.c=(i128)d.cval; return l; }
    int k,ext; int t=termPrefix(v,k,ext);
    if(t>=0){ int tw=Tm[t].w;
      if(k==w&&tw==w){ if(Tm[t].op==T_LIN) return Tm[t].lin; l.m[v]=1; return l; }
      if(Tm[t].op==T_LIN&&tw<=100&&k<=tw){ Lin q=Tm[t].lin; auto r=linRange(F,q,tw);
        if(r.ok){ // integer window
          if(ext==0&&k<w&&fdiv(r.lo,k)==fdiv(r.hi,k)){ q.c-=(fdiv(r.lo,k)<<k); return liftAtoms(F,q,tw,w); }
          if(ext==1&&k<w){ i128 h=(i128)1<<k; i128 s=fdiv(r.lo,k); if(s==fdiv(r.hi,k)){ q.c-=(s<<k); q.c-=h; return liftAtoms(F,q,tw,w);} }
        } }
      else if(Tm[t].op!=T_LIN&&ext==0&&k<w){ ValId tv=termVal(t); auto r=range(F,tv); if(r.second<=maskw(k)&&tw<=w){ l.m[zextv(tv,w)]=1; return l; } }
    }
    if(t<0&&d.var==-2&&!d.hasTerm&&!d.hasUninit&&w>8&&w<=64&&d.nvars>=2) return byInput(v,w);
    l.m[v]=1; return l; }
  // a value assembled from several input bytes, as the sum of one part per byte (bits of several bytes stay atoms)
  Lin byInput(ValId v,int w){ Lin l; std::vector<Bit> bits=V[v].bits; std::map<int,std::vector<Bit>> per; std::vector<std::pair<int,Bit>> rest;
    for(int i=0;i<w;i++){ Bit b=bits[i]; if(b==0) continue; if(b==1){ l.c+=(i128)((u128)1<<i); continue; }
      ValId one=mkInt({b}); int var=V[one].var; if(var>=0){ auto&q=per[var]; if(q.empty()) q.assign(w,0); q[i]=b; } else rest.push_back({i,b}); }
    l.c=smod(l.c,w);
    for(auto&p:per) linAdd(l,mkInt(p.second),1);
    for(auto&p:rest){ std::vector<Bit> b(w,0); b[0]=p.second; linAdd(l,mkInt(b),smod((i128)((u128)1<<p.first),w)); }
    return l; }
  ValId zextv(ValId v,int w){ std::vector<Bit> b=V[v].bits; b.resize(w,0); return mkInt(b); }
  // re-express atoms (width tw) at width w, under the current value sets
  Lin liftAtoms(const Facts&F,const Lin&q,int tw,int w){ Lin o; o.c=q.c; for(auto&p:q.m){ ValId a=p.first; const ValData&d=V[a];
      if(d.var>=0){ int var=d.var; std::vector<u128> t2(256,0); i128 q[256]; atomInts(F,a,tw,q); for(int x=0;x<256;x++) t2[x]=(u128)q[x]&maskw(w);
        linAdd(o,fromTable(var,w,t2),p.second); }
      else linAdd(o,d.w<w?zextv(a,w):a,p.second); } return o; }
  // canonical value of an affine form
  ValId mkLin(int w,Lin l){
    u128 M=maskw(w);
    // merge single-variable atoms by variable
    std::map<int,std::vector<u128>> fv; Lin o; u128 c=(u128)l.c;
    for(auto&p:l.m){ const ValData&d=V[p.first]; if(d.var==-1){ c+=(u128)p.second*d.cval; continue; }
      if(d.var>=0){ int var=d.var; auto t=table(p.first); auto&f=fv[var]; if(f.empty()) f.assign(256,0); for(int x=0;x<256;x++) f[x]+=(u128)p.second*t[x]; }
      else { i128 q=smod(p.second,w); if(q) linAdd(o,p.first,q); } }
    std::vector<std::pair<int,ValId>> fa;
    for(auto&p:fv){ u128 f0=p.second[0]; c+=f0; bool z=true; for(auto&x:p.second){ x=(x-f0)&M; if(x) z=false; } if(!z) fa.push_back({p.first,fromTable(p.first,w,p.second)}); }
    c&=M;
    if(fa.empty()&&o.m.empty()) return mkConst(w,c);
    if(fa.size()==1&&o.m.empty()){ auto f=table(fa[0].second); for(auto&x:f) x=(x+c)&M; return fromTable(fa[0].first,w,f); }
    if(fa.empty()&&o.m.size()==1&&c==0&&o.m.begin()->second==1) return o.m.begin()->first;
    // bitwise-disjoint? (single-variable atoms and coefficient-2^k atoms only)
    { std::vector<std::vector<Bit>> parts; bool ok=true; for(auto&p:fa) parts.push_back(V[p.second].bits);
      for(auto&p:o.m){ i128 q=p.second; if(q<=0||(q&(q-1))){ ok=false; break; } int s=0; while(!((q>>s)&1)) s++; std::vector<Bit> b(w,0); for(int i=0;i+s<w;i++) b[i+s]=V[p.first].bits[i]; parts.push_back(b); }
      if(ok){ std::vector<Bit> r(w,0); for(int i=0;i<w&&ok;i++){ if((c>>i)&1) r[i]=1; for(auto&b:parts) if(b[i]){ if(r[i]) {ok=false;break;} r[i]=b[i]; } } if(ok) return mkInt(r); } }
    Lin n; n.c=smod((i128)c,w); for(auto&p:fa) n.m[p.second]=1; for(auto&p:o.m) n.m[p.first]=p.second;
    std::vector<int64_t> k={100,w,(int64_t)(u64)n.c,(int64_t)(u64)((u128)n.c>>64)}; for(auto&p:n.m){ k.push_back(p.first); k.push_back((int64_t)(u64)p.second); k.push_back((int64_t)(u64)((u128)p.second>>64)); }
    auto it=tmap.find(k); int id; if(it!=tmap.end()) id=it->second; else { Term t; t.op=T_LIN; t.w=w; t.lin=n; Tm.push_back(t); id=Tm.size()-1; tmap.emplace(k,id);}    
    return termVal(id);
  }
  // ---------------------------------------------------------------- operations
  template<class Fn> ValId tab2(ValId a,ValId b,int w,Fn fn){ int var=V[a].var>=0?V[a].var:V[b].var; std::vector<u128> r(256); if(var<0){ return mkConst(w,fn(V[a].cval,V[b].cval)); }
    bool ca=V[a].var==-1,cb=V[b].var==-1; const std::vector<u128> ta=ca?std::vector<u128>():table(a), tb=cb?std::vector<u128>():table(b);
    for(int x=0;x<256;x++) r[x]=fn(ca?V[a].cval:ta[x],cb?V[b].cval:tb[x])&maskw(w); return fromTable(var,w,r); }
  bool sameSingle(ValId a,ValId b){ int x=V[a].var,y=V[b].var; if(x==-2||y==-2) return false; return x==-1||y==-1||x==y; }
  bool pure(ValId v){ return !V[v].hasTerm; }
  ValId ripple(const Facts&F,ValId a,ValId b,Bit cin){ int w=V[a].w; std::vector<Bit> A=V[a].bits,B=V[b].bits,r(w); Bit c=cin; for(int i=0;i<w;i++){ Bit x=mkXor(A[i],B[i]); r[i]=ev(F,mkXor(x,c)); if(i+1<w) c=ev(F,mkOr(mkAnd(A[i],B[i]),mkAnd(x,c))); } return mkInt(r); }
  ValId bnot(ValId a){ std::vector<Bit> b=V[a].bits; for(auto&x:b) x=nt(x); return mkInt(b); }
  ValId add(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(V[a].hasUninit||V[b].hasUninit) return mkUninit(w);
    if(sameSingle(a,b)) return tab2(a,b,w,[](u128 x,u128 y){return x+y;});
    if(isConst(a)&&cval(a)==0) return b; if(isConst(b)&&cval(b)==0) return a;
    { bool dj=true; auto&A=V[a].bits;auto&B=V[b].bits; for(int i=0;i<w;i++) if(A[i]&&B[i]){dj=false;break;} if(dj){ std::vector<Bit> r(w); for(int i=0;i<w;i++) r[i]=V[a].bits[i]|V[b].bits[i]; return mkInt(r);} }
    auto complexv=[&](ValId v){ return V[v].var==-2&&pure(v)&&V[v].nvars>=2; };
    if(pure(a)&&pure(b)&&(complexv(a)||complexv(b))&&!(w==64&&complexv(a)&&complexv(b))) return ripple(F,a,b,0);
    Lin l=asLin(F,a,w), m=asLin(F,b,w); l.c+=m.c; for(auto&p:m.m) linAdd(l,p.first,p.second); return mkLin(w,l); }
  ValId sub(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(V[a].hasUninit||V[b].hasUninit) return mkUninit(w);
    if(a==b) return mkConst(w,0);
    if(sameSingle(a,b)) return tab2(a,b,w,[](u128 x,u128 y){return x-y;});
    if(isConst(b)&&cval(b)==0) return a;
    auto complexv=[&](ValId v){ return V[v].var==-2&&pure(v)&&V[v].nvars>=2; };
    if(pure(a)&&pure(b)&&(complexv(a)||complexv(b))&&!(w==64&&complexv(a)&&complexv(b))) return ripple(F,a,bnot(b),1);
    Lin l=asLin(F,a,w), m=asLin(F,b,w); l.c-=m.c; for(auto&p:m.m) linAdd(l,p.first,-p.second); return mkLin(w,l); }
  ValId shlC(ValId a,int s){ int w=V[a].w; std::vector<Bit> r(w,0); for(int i=0;i+s<w;i++) r[i+s]=V[a].bits[i]; return mkInt(r); }
  ValId mul(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(V[a].hasUninit||V[b].hasUninit) return mkUninit(w);
    if(sameSingle(a,b)) return tab2(a,b,w,[](u128 x,u128 y){return x*y;});
    if(isConst(a)) std::swap(a,b);
    if(isConst(b)){ u128 c=cval(b); if(c==0) return b; if(c==1) return a; if(pure(a)&&!(c&(c-1))){ int s=0; while(!((c>>s)&1)) s++; return shlC(a,s);} 
      if(w<=64){ Lin l=asLin(F,a,w); i128 k=smod((i128)c,w); l.c=smod((i128)((u128)l.c*(u128)k),w); for(auto&p:l.m) p.second=smod((i128)((u128)p.second*(u128)k),w); return mkLin(w,l);} }
    return termVal(mkBinTerm(T_MUL,w,a,b)); }
  ValId shl(const Facts&F,ValId a,ValId s){ int w=V[a].w; if(isConst(s)){ u128 c=cval(s); if(c>=(u128)w) return mkUninit(w); int k;int ext; if(termPrefix(a,k,ext)>=0&&w<=64) return mul(F,a,mkConst(w,(u128)1<<(int)c)); return shlC(a,(int)c); }
    if(sameSingle(a,s)) return tab2(a,s,w,[w](u128 x,u128 y){return y>=(u128)w?0:x<<(int)y;});
    return termVal(mkBinTerm(T_SHL,w,a,s)); }
  ValId lshr(const Facts&F,ValId a,ValId s,bool arith){ int w=V[a].w; if(isConst(s)){ u128 c=cval(s); if(c>=(u128)w) return mkUninit(w); std::vector<Bit> r(w); Bit f=arith?V[a].bits[w-1]:0; for(int i=0;i<w;i++) r[i]=i+(int)c<w?V[a].bits[i+(int)c]:f;
        bool t=V[a].hasTerm; if(!arith&&c>0&&t){ auto rg=range(F,a); if((rg.first>>(int)c)==(rg.second>>(int)c)) return mkConst(w,rg.first>>(int)c); }
        return mkInt(r); }
    if(sameSingle(a,s)) return tab2(a,s,w,[w,arith](u128 x,u128 y){ if(y>=(u128)w) return (u128)0; u128 r=x>>(int)y; if(arith&&((x>>(w-1))&1)) r|=maskw(w)&~(maskw(w)>>(int)y); return r;});
    return termVal(mkBinTerm(arith?T_ASHR:T_LSHR,w,a,s)); }
  ValId udiv(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(sameSingle(a,b)) return tab2(a,b,w,[](u128 x,u128 y){return y?x/y:(u128)0;});
    if(isConst(b)){ u128 c=cval(b); if(c==1) return a; if(c&&!(c&(c-1))&&pure(a)){ int s=0; while(!((c>>s)&1)) s++; return lshr(F,a,mkConst(w,s),false);} auto r=range(F,a); if(c&&r.first/c==r.second/c) return mkConst(w,r.first/c); }
    return termVal(mkBinTerm(T_UDIV,w,a,b)); }
  ValId urem(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(sameSingle(a,b)) return tab2(a,b,w,[](u128 x,u128 y){return y?x%y:(u128)0;});
    if(isConst(b)){ u128 c=cval(b); if(c&&!(c&(c-1))&&pure(a)){ std::vector<Bit> r=V[a].bits; for(int i=0;i<w;i++) if(((u128)1<<i)>=c) r[i]=0; return mkInt(r);} auto r=range(F,a); if(c&&r.first/c==r.second/c) return sub(F,a,mkConst(w,r.first/c*c)); }
    return termVal(mkBinTerm(T_UREM,w,a,b)); }
  ValId sdivrem(const Facts&F,ValId a,ValId b,bool rem){ int w=V[a].w; i128 al,ah,bl,bh; if(srange(F,a,al,ah)&&srange(F,b,bl,bh)&&al>=0&&bl>=0) return rem?urem(F,a,b):udiv(F,a,b);
    if(sameSingle(a,b)&&w<=64) return tab2(a,b,w,[w,rem](u128 x,u128 y){ i128 X=(x>>(w-1))&1?(i128)x-((i128)1<<w):(i128)x, Y=(y>>(w-1))&1?(i128)y-((i128)1<<w):(i128)y; if(!Y) return (u128)0; return (u128)(rem?X%Y:X/Y);});
    return termVal(mkBinTerm(rem?T_SREM:T_SDIV,w,a,b)); }
  ValId bitop(const Facts&F,int op,ValId a,ValId b){ int w=V[a].w; std::vector<Bit> A=V[a].bits,B=V[b].bits,r(w);
    if(op==0){ if(isConst(a)) {std::swap(a,b); std::swap(A,B);} // AND with const mask 2^k-1 where the value already fits
      if(isConst(b)&&V[a].hasTerm){ u128 m=cval(b); if((m&(m+1))==0){ int k=0; while(k<w&&((m>>k)&1)) k++; if(k<w&&k>0) return zextv(trunc(F,a,k),w); } } }
    for(int i=0;i<w;i++){ r[i]= op==0?mkAnd(A[i],B[i]): op==1?mkOr(A[i],B[i]): mkXor(A[i],B[i]); if(r[i]>3) r[i]=ev(F,r[i]); }
    return mkInt(r); }
  ValId trunc(const Facts&F,ValId a,int w){ int t=-1; int k,ext; if(V[a].hasTerm) t=termPrefix(a,k,ext); if(t>=0&&Tm[t].op==T_LIN&&k>=w){ Lin l=Tm[t].lin; Lin o; o.c=l.c; int tw=Tm[t].w; (void)tw; for(auto&p:l.m){ std::vector<Bit> b(V[p.first].bits.begin(),V[p.first].bits.begin()+w); linAdd(o,mkInt(b),smod(p.second,w)); } return mkLin(w,o); }
    std::vector<Bit> b(V[a].bits.begin(),V[a].bits.begin()+w); return mkInt(b); }
  ValId ext(const Facts&F,ValId a,int w,bool sg){ std::vector<Bit> b=V[a].bits; int w0=b.size(); if(V[a].hasTerm) for(auto&x:b) x=ev(F,x); Bit f=sg?b[w0-1]:0; b.resize(w,f); ValId r=mkInt(b);
    if(V[r].hasTerm){ Lin l=asLin(F,r,w); if(!(l.m.size()==1&&l.m.begin()->first==r)) return mkLin(w,l); }
    return r; }
  // comparisons
  Bit eq(const Facts&F,ValId a,ValId b){ if(a==b) return V[a].hasUninit?UNI:1; int w=V[a].w; if(V[a].hasUninit||V[b].hasUninit){ for(int i=0;i<w;i++) if(ev(F,V[a].bits[i])<2&&ev(F,V[b].bits[i])<2&&ev(F,V[a].bits[i])!=ev(F,V[b].bits[i])) return 0; return UNI; }
    if(sameSingle(a,b)){ ValId r=tab2(a,b,1,[](u128 x,u128 y){return (u128)(x==y);}); return ev(F,V[r].bits[0]); }
    auto ra=range(F,a),rb=range(F,b); if(ra.second<rb.first||rb.second<ra.first) return 0; if(ra.first==ra.second&&rb.first==rb.second) return ra.first==rb.first;
    bool term=V[a].hasTerm||V[b].hasTerm;
    if(term&&w<=100){ Lin l=asLin(F,a,w),m=asLin(F,b,w); l.c-=m.c; for(auto&p:m.m) linAdd(l,p.first,-p.second); ValId d=mkLin(w,l); if(isConst(d)) return cval(d)==0; auto r=range(F,d); if(r.first>0) return 0; if(V[d].var>=0){ ValId z=tab2(d,mkConst(w,0),1,[](u128 x,u128 y){return (u128)(x==y);}); return ev(F,V[z].bits[0]); } }
    std::vector<Bit> cj; std::vector<Bit> A=V[a].bits,B=V[b].bits; for(int i=0;i<w;i++){ Bit x=ev(F,mkXor(A[i],B[i])); if(x==1) return 0; if(x==UNI) return UNI; if(x) cj.push_back(x^1); }
    if(cj.empty()) return 1;
    if(term) return mkCmp(N_EQ,a,b);
    return ev(F,mkAndN(cj)); }
  Bit ult(const Facts&F,ValId a,ValId b,bool top=true){ if(a==b) return V[a].hasUninit?UNI:0; int w=V[a].w;
    if(sameSingle(a,b)){ ValId r=tab2(a,b,1,[](u128 x,u128 y){return (u128)(x<y);}); return ev(F,V[r].bits[0]); }
    auto ra=range(F,a),rb=range(F,b); if(ra.second<rb.first) return 1; if(ra.first>=rb.second) return 0;
    if(V[a].hasUninit||V[b].hasUninit) return UNI;
    if((V[a].hasTerm||V[b].hasTerm)&&w<=64){ Lin l=asLin(F,a,w),m=asLin(F,b,w); auto tl=linRange(F,l,w),tm=linRange(F,m,w); if(tl.ok&&tm.ok&&fdiv(tl.lo,w)==fdiv(tl.hi,w)&&fdiv(tm.lo,w)==fdiv(tm.hi,w)){ l.c-=(fdiv(tl.lo,w)<<w); m.c-=(fdiv(tm.lo,w)<<w); Lin d=l; d.c-=m.c; for(auto&p:m.m) linAdd(d,p.first,-p.second); auto r=linRange(F,d,w); if(r.ok){ if(r.hi<0) return 1; if(r.lo>=0) return 0; } } }
    // most significant bit first: set of possible relations so far
    std::vector<Bit> A=V[a].bits,B=V[b].bits; bool lt=false,gt=false,cont=true; std::vector<std::pair<Bit,Bit>> open;
    for(int i=w-1;i>=0;i--){ Bit x=ev(F,A[i]),y=ev(F,B[i]); if(x==y) continue; Bit d=ev(F,mkXor(x,y)); if(d==0) continue;
      if(d==1){ // definitely different here
        if(x==0||y==1){ lt=true; cont=false; break; } if(x==1||y==0){ gt=true; cont=false; break; } lt=gt=true; cont=false; open.push_back({x,y}); break; }
      if(x==0||y==1) lt=true; else if(x==1||y==0) gt=true; else lt=gt=true; open.push_back({x,y}); }
    bool eqp=cont; if(!lt) return 0; if(lt&&!gt&&!eqp) return 1;
    // few open positions: exact bit formula
    if(open.size()<=24&&!V[a].hasTerm&&!V[b].hasTerm){ Bit r=(!cont&&open.empty())?1:0; 
      // recompute from least significant open position upward
      Bit tail=0; if(!cont){ // last examined position decided
        int i=w-1; (void)i; }
      std::vector<std::pair<Bit,Bit>> seq; bool decided=false; Bit dec=0; for(int i=w-1;i>=0;i--){ Bit x=ev(F,A[i]),y=ev(F,B[i]); if(x==y) continue; Bit d=ev(F,mkXor(x,y)); if(d==0) continue; if(d==1){ decided=true; dec=(x==0||y==1)?1:(x==1||y==0)?0:y; break; } seq.push_back({x,y}); }
      tail=decided?dec:0; for(int i=(int)seq.size()-1;i>=0;i--){ Bit x=seq[i].first,y=seq[i].second; tail=mkMux(mkXor(x,y),y,tail); } (void)r; return ev(F,tail); }
    return mkCmp(N_ULT,a,b); }
  Bit slt(const Facts&F,ValId a,ValId b){ int w=V[a].w; if(sameSingle(a,b)){ ValId r=tab2(a,b,1,[w](u128 x,u128 y){ u128 h=(u128)1<<(w-1); return (u128)((x^h)<(y^h));}); return ev(F,V[r].bits[0]); }
    if(V[a].hasUninit||V[b].hasUninit) return UNI;
    i128 al,ah,bl,bh; if(srange(F,a,al,ah)&&srange(F,b,bl,bh)){ if(ah<bl) return 1; if(al>=bh) return 0; if(al>=0&&bl>=0) return ult(F,a,b); if(ah<0&&bh<0) return ult(F,a,b);
      if(w<=64&&(V[a].hasTerm||V[b].hasTerm)){ Lin l=asLin(F,a,w),m=asLin(F,b,w); auto tl=linRange(F,l,w),tm=linRange(F,m,w); i128 h=(i128)1<<(w-1); if(tl.ok&&tm.ok&&tl.lo>=-h&&tl.hi<h&&tm.lo>=-h&&tm.hi<h){ Lin d=l; d.c-=m.c; for(auto&p:m.m) linAdd(d,p.first,-p.second); auto r=linRange(F,d,w); if(r.ok){ if(r.hi<0) return 1; if(r.lo>=0) return 0; } } } }
    std::vector<Bit> A=V[a].bits,B=V[b].bits; A[w-1]=nt(A[w-1]); B[w-1]=nt(B[w-1]); return ult(F,mkInt(A),mkInt(B)); }

  // ---------------------------------------------------------------- assumptions; returns false when infeasible
  bool assume(FactsP&F,Bit b){
    b=ev(*F,b); if(b==1) return true; if(b==0) return false; if((b>>1)==1) return true;
    FactsP G=F->clone(); std::vector<Bit> q={b}; if(!assumeLoop(*G,q)) return false; F=G; return true; }
  void flush(Facts&G){ G.bc.clear(); G.rc.clear(); G.vc.clear(); }
  bool assumeLoop(Facts&G,std::vector<Bit>&q){
    int guard=0;
    while(!q.empty()){
      if(++guard>4000) return true;
      Bit b=q.back(); q.pop_back(); b=ev(G,b); if(b==1) continue; if(b==0) return false; if((b>>1)==1) continue;
      int n=b>>1; bool val=!(b&1); NKind k=N[n].k;
      if(k==N_FUN){ T256 t=val?N[n].t:~N[n].t; T256 s=G.set(N[n].a)&t; if(s.empty()) return false; G.sets[N[n].a]=s; flush(G); }
      else if(k==N_AND&&val){ for(Bit c:N[n].ch) q.push_back(c); continue; }
      else { G.nf[n]=val; flush(G);
        if(k==N_ULT){ ValId a=N[n].a,bb=N[n].b; if(!refineUlt(G,val?a:bb,val?bb:a,val)) return false; }
        if(k==N_EQ&&val){ ValId a=N[n].a,bb=N[n].b; auto ra=range(G,a),rb=range(G,bb); u128 lo=std::max(ra.first,rb.first),hi=std::min(ra.second,rb.second); if(lo>hi) return false; if(!refine(G,a,lo,hi)||!refine(G,bb,lo,hi)) return false; }
        if(k==N_EQ&&!val){ ValId a=N[n].a,bb=N[n].b; for(int s=0;s<2;s++){ if(isConst(bb)){ auto ra=range(G,a); u128 c=cval(bb); if(ra.first==c&&ra.second==c) return false; if(ra.first==c){ if(!refine(G,a,c+1,ra.second)) return false; } else if(ra.second==c){ if(!refine(G,a,ra.first,c-1)) return false; } } std::swap(a,bb);} }
        if(k==N_TERM){ int t=N[n].a; (void)t; }
      }
      // unit propagation over remembered negative conjunctions and exclusive-ors
      for(auto&p:G.nf){ const Node&m=N[p.first]; if(m.k==N_AND&&!p.second){ Bit open=1; int cnt=0; bool sat=false; std::vector<Bit> ch=m.ch; for(Bit c:ch){ Bit e=ev(G,c); if(e==0){sat=true;break;} if(e!=1){ cnt++; open=e; } } if(sat) continue; if(cnt==0) return false; if(cnt==1&&ev(G,open)!=0) q.push_back(open^1); }
        else if(m.k==N_XOR){ Bit a=ev(G,m.a),b2=ev(G,m.b); if(a<2&&b2<2){ if((a^b2)!=(Bit)p.second) return false; } else if(a<2) q.push_back((b2^a)^(p.second?0:1)); else if(b2<2) q.push_back((a^b2)^(p.second?0:1)); } }
      // drop pushes that are already satisfied to guarantee progress
      std::vector<Bit> q2; for(Bit c:q){ Bit e=ev(G,c); if(e==0) return false; if(e!=1) q2.push_back(c); } q.swap(q2);
    }
    return true; }
  bool refineUlt(Facts&G,ValId a,ValId b,bool strict){ // a<b or a<=b
    auto ra=range(G,a),rb=range(G,b); u128 hi=rb.second; if(strict){ if(hi==0) return false; hi--; } if(ra.first>hi) return false; if(hi<ra.second) if(!refine(G,a,ra.first,hi)) return false;
    ra=range(G,a); u128 lo=ra.first; if(strict) lo++; rb=range(G,b); if(lo>rb.second) return false; if(lo>rb.first) if(!refine(G,b,lo,rb.second)) return false; return true; }
  bool refine(Facts&G,ValId v,u128 lo,u128 hi,int depth=0){
    const ValData&d=V[v]; if(d.var==-1) return d.cval>=lo&&d.cval<=hi; if(lo>hi) return false; int w=d.w;
    if(d.var>=0){ int var=d.var; auto t=table(v); T256 s=T_EMPTY; const T256 S=G.set(var); for(int x=0;x<256;x++) if(S.get(x)&&t[x]>=lo&&t[x]<=hi) s.set(x); if(s.empty()) return false; if(s!=S){ G.sets[var]=s; flush(G);} return true; }
    auto r=range(G,v); lo=std::max(lo,r.first); hi=std::min(hi,r.second); if(lo>hi) return false; if(lo==r.first&&hi==r.second) return true;
    if(d.hasTerm){ G.iv[v]={lo,hi}; flush(G); }
    int k,ext; int t=termPrefix(v,k,ext); if(t<0||depth>4) return true; ValId tv=termVal(t);
    if(tv!=v&&ext==0&&k==Tm[t].w) return refine(G,tv,lo,hi,depth+1);
    if(tv!=v) return true;
    if(Tm[t].op==T_LIN){ Lin l=Tm[t].lin; auto tr=linRange(G,l,w); if(!tr.ok||fdiv(tr.lo,w)!=fdiv(tr.hi,w)) return true; i128 s=fdiv(tr.lo,w)<<w; i128 L=(i128)lo+s,H=(i128)hi+s;
      for(auto&p:l.m){ auto ar=atomRange(G,p.first,w); if(!ar.ok) return true; Lin rest=l; rest.m.erase(p.first); auto rr=linRange(G,rest,w); if(!rr.ok) return true;
        // c*atom in [L-rr.hi, H-rr.lo]
        i128 a=L-rr.hi,b=H-rr.lo,c=p.second; if(V[p.first].var>=0){ int var=V[p.first].var; auto tb=table(p.first); T256 sset=T_EMPTY; const T256 S=G.set(var); u128 M=maskw(w),half=(u128)1<<(w-1); bool first=true; u128 bu=0; i128 base=0; for(int x=0;x<256;x++) if(S.get(x)){ bu=tb[x]; base=(bu&half)?(i128)bu-(i128)M-1:(i128)bu; first=false; break; } (void)first;
            for(int x=0;x<256;x++) if(S.get(x)){ u128 df=(tb[x]-bu)&M; i128 sd=(df&half)?(i128)df-(i128)M-1:(i128)df; i128 q=c*(base+sd); if(q>=a&&q<=b) sset.set(x);} if(sset.empty()) return false; if(sset!=S){ G.sets[var]=sset; flush(G);} }
        else { i128 lo2,hi2; if(c>0){ lo2=a>=0?(a+c-1)/c:-((-a)/c); hi2=b>=0?b/c:-((-b+c-1)/c); } else { i128 cc=-c; i128 a2=-b,b2=-a; lo2=a2>=0?(a2+cc-1)/cc:-((-a2)/cc); hi2=b2>=0?b2/cc:-((-b2+cc-1)/cc); }
          if(lo2<ar.lo) lo2=ar.lo; if(hi2>ar.hi) hi2=ar.hi; if(lo2>hi2) return false; if(lo2>ar.lo||hi2<ar.hi) if(!refine(G,p.first,(u128)lo2,(u128)hi2,depth+1)) return false; } } }
    else if(Tm[t].op==T_UDIV&&isConst(Tm[t].b)){ u128 c=cval(Tm[t].b); ValId x=Tm[t].a; if(c&&hi<(maskw(100)/c)) return refine(G,x,lo*c,hi*c+c-1,depth+1); }
    return true; }

  // ---------------------------------------------------------------- concretisation of an abstract element
  struct Asg { std::vector<int> v; std::unordered_map<int,int> nb; };
  // returns 0/1, -1 when the bit involves an opaque quantity
  int cbit(Asg&A,Bit b){ if(b<2) return b; int n=b>>1; auto it=A.nb.find(n); int r; if(it!=A.nb.end()) r=it->second; else { r=cnode(A,n); A.nb[n]=r; } return r<0?r:(r^(int)(b&1)); }
  int cnode(Asg&A,int n){ const NKind k=N[n].k; switch(k){ case N_FUN: return N[n].t.get(A.v[N[n].a]);
      case N_AND: { bool un=false; auto ch=N[n].ch; for(Bit c:ch){ int r=cbit(A,c); if(r==0) return 0; if(r<0) un=true; } return un?-1:1; }
      case N_XOR: { int a=cbit(A,N[n].a),b=cbit(A,N[n].b); return a<0||b<0?-1:(a^b); }
      case N_TERM: { u128 r; int t=N[n].a,i=N[n].b; if(!cterm(A,t,r)) return -1; return (r>>i)&1; }
      case N_ULT: case N_EQ: { u128 a,b; if(!cv(A,N[n].a,a)||!cv(A,N[n].b,b)) return -1; return k==N_ULT?a<b:a==b; }
      default: return -1; } }
  bool cv(Asg&A,ValId v,u128&r){ if(V[v].k!=V_INT) return false; r=0; for(int i=0;i<V[v].w&&i<128;i++){ int c=cbit(A,V[v].bits[i]); if(c<0) return false; r|=(u128)c<<i; } return true; }
  bool cterm(Asg&A,int t,u128&r){ Term T=Tm[t]; if(T.op==T_OPQ) return false; if(T.op==T_LIN){ u128 s=(u128)T.lin.c; for(auto&p:T.lin.m){ u128 x; if(!cv(A,p.first,x)) return false; s+=(u128)p.second*x; } r=s&maskw(T.w); return true; }
    u128 a,b; if(!cv(A,T.a,a)||!cv(A,T.b,b)) return false; int w=T.w; switch(T.op){ case T_UDIV: if(!b) return false; r=a/b; return true; case T_UREM: if(!b) return false; r=a%b; return true; case T_MUL: r=(a*b)&maskw(w); return true; case T_SHL: if(b>=(u128)w) return false; r=(a<<(int)b)&maskw(w); return true; case T_LSHR: if(b>=(u128)w) return false; r=a>>(int)b; return true; case T_ASHR: { if(b>=(u128)w) return false; r=a>>(int)b; if((a>>(w-1))&1) r|=maskw(w)&~(maskw(w)>>(int)b); return true; }
      case T_SDIV: case T_SREM: { if(w>64||!b) return false; i128 X=(a>>(w-1))&1?(i128)a-((i128)1<<w):(i128)a,Y=(b>>(w-1))&1?(i128)b-((i128)1<<w):(i128)b; r=(u128)(T.op==T_SDIV?X/Y:X%Y)&maskw(w); return true; } default: return false; } }
  // does the assignment satisfy the facts? 1 yes, 0 no, -1 unknown
  int satisfies(Asg&A,const Facts&F){ for(auto&p:F.sets) if(!p.second.get(A.v[p.first])) return 0; bool un=false; for(auto&p:F.nf){ int r=cbit(A,p.first*2); if(r<0) un=true; else if(r!=(int)p.second) return 0; } for(auto&p:F.iv){ u128 r; if(!cv(A,p.first,r)) { un=true; continue; } if(r<p.second.first||r>p.second.second) return 0; } return un?-1:1; }
  // enumerate sample members of gamma(F); calls fn(asg) until it returns true
  bool members(const Facts&F,int tries,unsigned seed,const std::function<bool(Asg&)>&fn){
    std::mt19937 rng(seed*7919u+12345u); size_t nv=varName.size();
    for(int k=0;k<tries;k++){ Asg A; A.v.resize(nv); for(size_t v=0;v<nv;v++){ const T256&S=F.set((int)v); int c=S.count(); if(!c) return false; int pick; if(k==0) pick=0; else if(k==1) pick=c-1; else { int m=rng()%8; pick= m==0?0: m==1?c-1: (int)(rng()%c); }
        int x=0; for(;x<256;x++) if(S.get(x)&&pick--==0) break; A.v[v]=x; }
      if(satisfies(A,F)==1) if(fn(A)) return true; }
    return false; }
  std::string str(ValId v){ if(v<0) return "none"; const ValData&d=V[v]; if(d.k==V_PTR) return "ptr(obj"+std::to_string(d.obj)+"+"+str(d.off)+")"; if(d.k==V_AGG){ std::string s="{"; for(auto e:d.el) s+=str(e)+","; return s+"}"; } if(d.k==V_FRAG) return "frag";
    if(d.var==-1) return u128s(d.cval)+":i"+std::to_string(d.w); int t=termOf(v); if(t>=0) return termStr(t)+":i"+std::to_string(d.w); if(d.var>=0) return "f("+varName[d.var]+"):i"+std::to_string(d.w); std::string s="["; for(int i=d.w-1;i>=0;i--) s+=bstr(d.bits[i])+(i?" ":""); return s+"]"; }
  std::string termStr(int t){ Term&T=Tm[t]; static const char*nm[]={"lin","udiv","urem","mul","shl","lshr","ashr","sdiv","srem","opq"}; std::string s=std::string(nm[T.op])+"("; if(T.op==T_LIN){ for(auto&p:T.lin.m) s+=(p.second<0?"-"+u128s(-p.second):u128s(p.second))+"*"+str(p.first)+" + "; s+=T.lin.c<0?"-"+u128s(-T.lin.c):u128s(T.lin.c); } else if(T.op==T_OPQ) s+=T.name+"#"+std::to_string(T.uid); else s+=str(T.a)+","+str(T.b); return s+")"; }
  std::string bstr(Bit b){ if(b<2) return b?"1":"0"; const Node&n=N[b>>1]; std::string p=(b&1)?"~":""; switch(n.k){ case N_FUN: { for(int i=0;i<8;i++){ bool lit=true; for(int x=0;x<256&&lit;x++) if(n.t.get(x)!=((x>>i)&1)) lit=false; if(lit) return p+varName[n.a]+"."+std::to_string(i);} return p+"f("+varName[n.a]+")"; } case N_AND: return p+"and#"+std::to_string(b>>1); case N_XOR: return p+"xor#"+std::to_string(b>>1); case N_TERM: return p+"t"+std::to_string(n.a)+"."+std::to_string(n.b); case N_UNINIT: return "U"; case N_OPAQUE: return p+"?"; default: return p+"cmp#"+std::to_string(b>>1);} }
};
