#include <ctime>
// bitflow: abstract interpreter over LLVM IR (fixpoint over the CFG with trace partitioning).
#include "algebra.h"
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

static Algebra A;
static const int OBJ_NULL=0, HEAP0=0x10000000, GLOB0=0x20000000, FUN0=0x30000000, UNK=-1;

struct Obj { std::vector<ValId> b; bool live=true, ro=false; std::string name; int64_t size() const { return b.size(); } };
typedef std::shared_ptr<Obj> ObjP;
struct State {
  FactsP F=std::make_shared<Facts>();
  std::vector<ObjP> stk{nullptr};          // object id = index (0 is null)
  std::vector<ObjP> heap;
  std::map<int,ObjP> glob;                 // globals written during the run
  std::map<int,int> exc;                   // exception object -> typeinfo object
  std::vector<int> caught;
  bool joined=false; int softalarms=0;
};

struct FuncInfo {
  std::unordered_map<const Value*,int> num; int n=0;
  std::unordered_map<const BasicBlock*,std::vector<int>> path;     // [ord(header comp1), ord(comp2)..., ord(bb)]
  std::unordered_map<const BasicBlock*,std::vector<const BasicBlock*>> nest; // headers of enclosing components
  std::unordered_map<const BasicBlock*,std::vector<int>> liveIn; std::map<std::pair<const BasicBlock*,int>,std::vector<int>> liveAt;
  std::unordered_map<const BasicBlock*,std::vector<bool>> liveInB,liveOutB;
};

struct Mod { std::unique_ptr<Module> M; std::vector<GlobalValue*> gl; std::unordered_map<const GlobalValue*,int> gid; std::unordered_map<int,ObjP> ginit; std::unordered_map<const Function*,std::unique_ptr<FuncInfo>> fi; std::unordered_map<const Function*,std::string> dem; std::vector<const Function*> analysed; std::set<const Function*> analysedS; std::set<std::string> ext; const DataLayout*DL; bool bigEndian=false; };
static LLVMContext Ctx; static std::vector<std::unique_ptr<Mod>> Mods; static Mod*M=nullptr;

static std::vector<std::pair<std::string,int>> Summ;
struct Opts { long budget=2000000; int loopcap=400; int merge=0; int cap=64; int depth=200; int maxout=20000; int roglobals=0; } O;
static long steps=0;
enum OK { RET=0,THROW=1,TERMINATE=2,ALARM=3,LOOPCAP=4,BUDGET=5,UNSUP=6,ABORT=7 };
struct Outcome { OK k; ValId ret=-1; State st; std::string msg; int ti=0; ValId exc=-1; };
static std::vector<const Instruction*> callstk;

static std::string fname(const Function*f){ auto it=M->dem.find(f); if(it!=M->dem.end()) return it->second; std::string s=demangle(f->getName().str()); M->dem[f]=s; return s; }
static std::string shortn(std::string s){ // drop template arguments and parameters for readability
  std::string r; int d=0; for(char c:s){ if(c=='<') d++; else if(c=='>') { if(d) d--; } else if(!d){ if(c=='('&&r.size()) break; r+=c; } } return r.size()?r:s; }
static std::string locOf(const Instruction*I){ std::string s=shortn(fname(I->getFunction())); for(const DILocation*L=I->getDebugLoc().get();L;L=nullptr){ std::string f=L->getFilename().str(); auto p=f.rfind('/'); if(p!=std::string::npos) f=f.substr(p+1); s=f+":"+std::to_string(L->getLine())+" ("+s+")"; } return s; }
static clock_t TLimit=0; // processor time at which an analysis gives up (undecided, never a verdict)
static std::string stackOf(const Instruction*I){ std::string s=I?locOf(I):""; int k=0; for(int i=(int)callstk.size()-1;i>=0&&k<6;i--,k++) s+=" <- "+locOf(callstk[i]); return s; }

// ------------------------------------------------------------------ function info: WTO order, numbering, liveness
static void wto(const std::vector<const BasicBlock*>&blocks,const std::set<const BasicBlock*>&in,const BasicBlock*head,std::vector<int>&prefix,std::vector<const BasicBlock*>&nest,FuncInfo&fi){
  // Tarjan over `blocks` ignoring edges into head
  std::unordered_map<const BasicBlock*,int> idx,low; std::vector<const BasicBlock*> st; std::set<const BasicBlock*> on; int cnt=0; std::vector<std::vector<const BasicBlock*>> sccs;
  struct Fr { const BasicBlock*b; std::vector<const BasicBlock*> su; size_t i; };
  for(auto*root:blocks){ if(idx.count(root)) continue; std::vector<Fr> fs; auto push=[&](const BasicBlock*b){ idx[b]=low[b]=cnt++; st.push_back(b); on.insert(b); std::vector<const BasicBlock*> su; for(auto*s:successors(b)) if(in.count(s)&&s!=head) su.push_back(s); fs.push_back({b,su,0}); };
    push(root);
    while(!fs.empty()){ Fr&f=fs.back(); if(f.i<f.su.size()){ auto*s=f.su[f.i++]; if(!idx.count(s)) push(s); else if(on.count(s)) low[f.b]=std::min(low[f.b],idx[s]); }
      else { const BasicBlock*b=f.b; if(low[b]==idx[b]){ std::vector<const BasicBlock*> c; while(true){ auto*x=st.back(); st.pop_back(); on.erase(x); c.push_back(x); if(x==b) break; } sccs.push_back(c);} fs.pop_back(); if(!fs.empty()) low[fs.back().b]=std::min(low[fs.back().b],low[b]); } } }
  int ord=0; for(int i=(int)sccs.size()-1;i>=0;i--){ auto&c=sccs[i]; ord++; bool loop=c.size()>1; if(!loop) for(auto*s:successors(c[0])) if(s==c[0]&&s!=head) loop=true;
    if(!loop){ auto p=prefix; p.push_back(ord); fi.path[c[0]]=p; fi.nest[c[0]]=nest; }
    else { // header: the block entered from outside first (the SCC root = b popped last)
      const BasicBlock*h=c.back(); std::vector<const BasicBlock*> bl(c.rbegin(),c.rend()); std::set<const BasicBlock*> in2(c.begin(),c.end()); prefix.push_back(ord); nest.push_back(h); 
      wto(bl,in2,h,prefix,nest,fi); prefix.pop_back(); nest.pop_back(); } }
}
static FuncInfo&info(const Function*f){ auto&p=M->fi[f]; if(p) return *p; p=std::make_unique<FuncInfo>(); FuncInfo&fi=*p;
  for(auto&a:f->args()) fi.num[&a]=fi.n++; for(auto&b:*f) for(auto&i:b) if(!i.getType()->isVoidTy()) fi.num[&i]=fi.n++;
  std::vector<const BasicBlock*> bl; for(auto&b:*f) bl.push_back(&b); std::set<const BasicBlock*> in(bl.begin(),bl.end()); std::vector<int> pre; std::vector<const BasicBlock*> nest; wto(bl,in,nullptr,pre,nest,fi);
  // liveness
  for(auto*b:bl){ fi.liveInB[b].assign(fi.n,false); fi.liveOutB[b].assign(fi.n,false);} bool ch=true; while(ch){ ch=false; for(int k=(int)bl.size()-1;k>=0;k--){ auto*b=bl[k]; std::vector<bool> out(fi.n,false); for(auto*s:successors(b)){ auto&li=fi.liveInB[s]; for(int i=0;i<fi.n;i++) if(li[i]) out[i]=true; for(auto&ph:s->phis()){ auto*v=ph.getIncomingValueForBlock(b); auto it=fi.num.find(v); if(it!=fi.num.end()) out[it->second]=true; } }
      // phi results of successor are defined on the edge
      for(auto*s:successors(b)) for(auto&ph:s->phis()){ int id=fi.num[&ph]; bool need=false; for(auto*s2:successors(b)) if(s2!=s&&fi.liveInB[s2][id]) need=true; if(!need){ bool used=false; for(auto&ph2:s->phis()) if(ph2.getIncomingValueForBlock(b)==&ph) used=true; if(!used) out[id]=false; } }
      fi.liveOutB[b]=out; auto live=out; for(auto it=b->rbegin();it!=b->rend();++it){ if(isa<PHINode>(*it)) continue; auto q=fi.num.find(&*it); if(q!=fi.num.end()) live[q->second]=false; for(auto&op:it->operands()){ auto z=fi.num.find(op.get()); if(z!=fi.num.end()) live[z->second]=true; } }
      if(live!=fi.liveInB[b]){ fi.liveInB[b]=live; ch=true; } } }
  return fi; }
static const std::vector<int>& liveAt(FuncInfo&fi,const BasicBlock*b,int idx){ auto key=std::make_pair(b,idx); auto it=fi.liveAt.find(key); if(it!=fi.liveAt.end()) return it->second; std::vector<bool> live=fi.liveOutB[b]; int n=b->size(); int k=n; for(auto i=b->rbegin();i!=b->rend();++i){ k--; if(k<idx) break; auto q=fi.num.find(&*i); if(q!=fi.num.end()&&!isa<PHINode>(*i)) live[q->second]=false; if(isa<PHINode>(*i)) continue; for(auto&op:i->operands()){ auto z=fi.num.find(op.get()); if(z!=fi.num.end()) live[z->second]=true; } }
  std::vector<int> r; for(int i=0;i<fi.n;i++) if(live[i]) r.push_back(i); return fi.liveAt[key]=r; }

// ------------------------------------------------------------------ globals and constants
static int globalId(const GlobalValue*g){ auto it=M->gid.find(g); if(it!=M->gid.end()) return it->second; int id=(isa<Function>(g)?FUN0:GLOB0)+(int)M->gl.size(); M->gl.push_back(const_cast<GlobalValue*>(g)); M->gid[g]=id; return id; }
static ValId constVal(const Constant*C);
static void storeBytes(std::vector<ValId>&b,int64_t off,ValId v,Type*ty);
static void initBytes(const Constant*C,std::vector<ValId>&b,int64_t off){ Type*T=C->getType(); const DataLayout&DL=*M->DL;
  if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)){ ValId z=isa<UndefValue>(C)?A.mkUninit(8):A.mkConst(8,0); int64_t n=DL.getTypeStoreSize(T); for(int64_t i=0;i<n&&off+i<(int64_t)b.size();i++) b[off+i]=z; return; }
  if(auto*S=dyn_cast<ConstantStruct>(C)){ auto*L=DL.getStructLayout(cast<StructType>(T)); for(unsigned i=0;i<S->getNumOperands();i++) initBytes(S->getOperand(i),b,off+(int64_t)L->getElementOffset(i)); return; }
  if(auto*S=dyn_cast<ConstantArray>(C)){ int64_t es=DL.getTypeAllocSize(T->getArrayElementType()); for(unsigned i=0;i<S->getNumOperands();i++) initBytes(S->getOperand(i),b,off+i*es); return; }
  if(auto*S=dyn_cast<ConstantDataSequential>(C)){ int64_t es=DL.getTypeAllocSize(S->getElementType()); for(unsigned i=0;i<S->getNumElements();i++) initBytes(S->getElementAsConstant(i),b,off+i*es); return; }
  storeBytes(b,off,constVal(C),T); }
static ObjP globalObj(int id){ auto it=M->ginit.find(id); if(it!=M->ginit.end()) return it->second; auto o=std::make_shared<Obj>(); GlobalValue*g=M->gl[id-GLOB0]; o->name=g->getName().str(); if(auto*gv=dyn_cast<GlobalVariable>(g)){ int64_t n=M->DL->getTypeAllocSize(gv->getValueType()); o->ro=gv->isConstant(); 
    if(gv->hasInitializer()){ o->b.assign(n,A.mkConst(8,0)); M->ginit[id]=o; initBytes(gv->getInitializer(),o->b,0); } else { o->b.resize(n); for(auto&x:o->b) x=A.opaque(8,"ext:"+o->name); } }
  M->ginit[id]=o; return o; }
static ValId constVal(const Constant*C){ Type*T=C->getType(); const DataLayout&DL=*M->DL;
  if(auto*I=dyn_cast<ConstantInt>(C)){ APInt v=I->getValue(); u128 x=v.getLoBits(std::min(64u,v.getBitWidth())).getZExtValue(); if(v.getBitWidth()>64) x|=(u128)v.lshr(64).getZExtValue()<<64; return A.mkConst(v.getBitWidth(),x); }
  if(isa<ConstantPointerNull>(C)) return A.mkPtrC(OBJ_NULL,0);
  if(isa<UndefValue>(C)||isa<PoisonValue>(C)){ if(T->isIntegerTy()) return A.mkUninit(T->getIntegerBitWidth()); if(T->isPointerTy()) return A.mkPtr(UNK,A.mkUninit(64)); if(T->isStructTy()||T->isArrayTy()){ std::vector<ValId> el; unsigned n=T->isStructTy()?T->getStructNumElements():T->getArrayNumElements(); for(unsigned i=0;i<n;i++) el.push_back(constVal(UndefValue::get(T->isStructTy()?T->getStructElementType(i):T->getArrayElementType()))); return A.mkAgg(el);} return A.mkUninit((int)DL.getTypeSizeInBits(T)); }
  if(auto*G=dyn_cast<GlobalValue>(C)){ if(auto*al=dyn_cast<GlobalAlias>(G)) return constVal(al->getAliasee()); return A.mkPtrC(globalId(G),0); }
  if(auto*FPc=dyn_cast<ConstantFP>(C)){ APInt v=FPc->getValueAPF().bitcastToAPInt(); u128 x=v.getLoBits(std::min(64u,v.getBitWidth())).getZExtValue(); return A.mkConst(v.getBitWidth(),x); }
  if(auto*E=dyn_cast<ConstantExpr>(C)){ if(auto*G=dyn_cast<GEPOperator>(E)){ ValId p=constVal(cast<Constant>(G->getPointerOperand())); APInt off(64,0); if(G->accumulateConstantOffset(DL,off)&&A.V[p].k==V_PTR&&A.isConst(A.V[p].off)) return A.mkPtrC(A.V[p].obj,(int64_t)A.cval(A.V[p].off)+off.getSExtValue()); }
    if(E->getOpcode()==Instruction::PtrToInt||E->getOpcode()==Instruction::BitCast||E->getOpcode()==Instruction::AddrSpaceCast) { ValId p=constVal(E->getOperand(0)); if(E->getOpcode()!=Instruction::PtrToInt) return p; }
    return T->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque((int)DL.getTypeSizeInBits(T)); }
  if(T->isStructTy()||T->isArrayTy()){ std::vector<ValId> el; unsigned n=T->isStructTy()?T->getStructNumElements():T->getArrayNumElements(); for(unsigned i=0;i<n;i++) el.push_back(constVal(C->getAggregateElement(i))); return A.mkAgg(el); }
  return A.opaque((int)DL.getTypeSizeInBits(T)); }

static void storeBytes(std::vector<ValId>&b,int64_t off,ValId v,Type*ty){ // in range
  if(A.V[v].k==V_PTR){ for(int i=0;i<8;i++) b[off+i]=A.mkFrag(v,i); return; }
  if(A.V[v].k==V_AGG){ const DataLayout&DL=*M->DL; auto el=A.V[v].el; if(auto*st=dyn_cast_or_null<StructType>(ty)){ auto*L=DL.getStructLayout(st); for(unsigned i=0;i<el.size();i++) storeBytes(b,off+(int64_t)L->getElementOffset(i),el[i],st->getElementType(i)); } else if(ty&&ty->isArrayTy()){ int64_t es=DL.getTypeAllocSize(ty->getArrayElementType()); for(unsigned i=0;i<el.size();i++) storeBytes(b,off+i*es,el[i],ty->getArrayElementType()); } return; }
  if(A.V[v].k==V_FRAG){ b[off]=v; return; }
  std::vector<Bit> bits=A.V[v].bits; int n=(bits.size()+7)/8; bits.resize(n*8,0); for(int i=0;i<n;i++){ std::vector<Bit> q(bits.begin()+i*8,bits.begin()+i*8+8); b[off+(M->bigEndian?n-1-i:i)]=A.mkInt(q); } }

struct Item { State st; std::vector<ValId> env; const BasicBlock*bb; int idx; std::vector<int> it; };
static Obj* robj(State&S,int id){ if(id<=0) return nullptr; if(id>=FUN0) return nullptr; if(id>=GLOB0){ auto it=S.glob.find(id); if(it!=S.glob.end()) return it->second.get(); return globalObj(id).get(); } if(id>=HEAP0){ size_t i=id-HEAP0; return i<S.heap.size()?S.heap[i].get():nullptr; } return (size_t)id<S.stk.size()?S.stk[id].get():nullptr; }
static Obj* wobj(State&S,int id){ ObjP*p=nullptr; if(id>=GLOB0){ auto it=S.glob.find(id); if(it==S.glob.end()){ S.glob[id]=std::make_shared<Obj>(*globalObj(id)); it=S.glob.find(id);} p=&it->second; } else if(id>=HEAP0) p=&S.heap[id-HEAP0]; else p=&S.stk[id]; if(p->use_count()>1) *p=std::make_shared<Obj>(**p); return p->get(); }
static int newStack(State&S,int64_t n,const std::string&nm){ auto o=std::make_shared<Obj>(); o->b.assign(n,A.mkUninit(8)); o->name=nm; S.stk.push_back(o); return S.stk.size()-1; }
static int newHeap(State&S,int64_t n,const std::string&nm){ auto o=std::make_shared<Obj>(); o->b.assign(n,A.mkUninit(8)); o->name=nm; S.heap.push_back(o); return HEAP0+S.heap.size()-1; }

static ValId assemble(const std::vector<ValId>&by,Type*ty){ // bytes -> value of type ty
  const DataLayout&DL=*M->DL; int n=by.size();
  if(ty->isStructTy()||ty->isArrayTy()){ std::vector<ValId> el; unsigned k=ty->isStructTy()?ty->getStructNumElements():ty->getArrayNumElements(); for(unsigned i=0;i<k;i++){ Type*et=ty->isStructTy()?ty->getStructElementType(i):ty->getArrayElementType(); int64_t off=ty->isStructTy()?(int64_t)DL.getStructLayout(cast<StructType>(ty))->getElementOffset(i):i*(int64_t)DL.getTypeAllocSize(et); std::vector<ValId> sub(by.begin()+off,by.begin()+off+DL.getTypeStoreSize(et)); el.push_back(assemble(sub,et)); } return A.mkAgg(el); }
  if(ty->isPointerTy()){ if(A.V[by[0]].k==V_FRAG){ ValId p=A.V[by[0]].el[0]; bool ok=true; for(int i=0;i<8;i++) if(A.V[by[i]].k!=V_FRAG||A.V[by[i]].el[0]!=p||A.V[by[i]].w!=i) ok=false; if(ok) return p; }
    bool zero=true,un=false; for(auto x:by){ if(!(A.isConst(x)&&A.cval(x)==0)) zero=false; if(A.V[x].k==V_INT&&A.V[x].hasUninit) un=true; } if(zero) return A.mkPtrC(OBJ_NULL,0); return A.mkPtr(UNK,un?A.mkUninit(64):A.opaque(64,"loadedptr")); }
  int w=(int)DL.getTypeSizeInBits(ty); std::vector<Bit> bits; bool frag=false; for(int i=0;i<n;i++){ ValId x=by[M->bigEndian?n-1-i:i]; if(A.V[x].k!=V_INT){ frag=true; break; } auto&q=A.V[x].bits; bits.insert(bits.end(),q.begin(),q.end()); }
  if(frag) return A.opaque(w,"ptrbits"); bits.resize(w); return A.mkInt(bits); }

// ------------------------------------------------------------------ the interpreter
static std::vector<Outcome> run(const Function*f,std::vector<ValId> args,State st);

static int tiMatches(int thrown,int want){ // typeinfo hierarchy: 1 yes, 0 no
  if(want==0) return 1; if(thrown==want) return 1; if(thrown<GLOB0||want<GLOB0) return 0;
  auto nm=[&](int id){ return M->gl[id-GLOB0]->getName().str(); }; std::string t=nm(thrown),w=nm(want); if(t==w) return 1;
  if(auto*gv=dyn_cast<GlobalVariable>(M->gl[thrown-GLOB0])) if(gv->hasInitializer()) if(auto*S=dyn_cast<ConstantStruct>(gv->getInitializer())) for(unsigned i=2;i<S->getNumOperands();i++) if(auto*b=dyn_cast<GlobalVariable>(S->getOperand(i)->stripPointerCasts())) if(tiMatches(globalId(b),want)) return 1;
  static const std::map<std::string,std::vector<std::string>> base={{"_ZTISt11logic_error",{"_ZTISt9exception"}},{"_ZTISt13runtime_error",{"_ZTISt9exception"}},{"_ZTISt12out_of_range",{"_ZTISt11logic_error"}},{"_ZTISt12length_error",{"_ZTISt11logic_error"}},{"_ZTISt16invalid_argument",{"_ZTISt11logic_error"}},{"_ZTISt9bad_alloc",{"_ZTISt9exception"}}};
  auto it=base.find(t); if(it!=base.end()) for(auto&b:it->second){ if(b==w) return 1; auto*g=M->M->getNamedValue(b); if(g&&tiMatches(globalId(g),want)) return 1; auto i2=base.find(b); if(i2!=base.end()) for(auto&c:i2->second) if(c==w) return 1; }
  return 0; }

struct Frame {
  const Function*f; FuncInfo&fi; std::map<std::vector<int>,std::vector<Item>> wl; std::vector<Outcome>&out; size_t base;
  Frame(const Function*f_,std::vector<Outcome>&o):f(f_),fi(info(f_)),out(o){}
  std::vector<int> keyOf(const Item&i){ auto&p=fi.path[i.bb]; std::vector<int> k; size_t n=p.size(); for(size_t j=0;j<n;j++){ k.push_back(p[j]); if(j+1<n) k.push_back(i.it[j]); } k.push_back(i.idx); return k; }
  void push(Item&&i){ auto k=keyOf(i); wl[k].push_back(std::move(i)); }
  void alarm(Item&i,const Instruction*I,const std::string&m,OK k=ALARM){ Outcome o; o.k=k; o.st=i.st; o.msg=m+" at "+stackOf(I); out.push_back(std::move(o)); }
  ValId get(Item&i,const Value*v){ if(auto*C=dyn_cast<Constant>(v)) return constVal(C); auto it=fi.num.find(v); if(it==fi.num.end()) return A.opaque(64); ValId x=i.env[it->second]; if(x<0) return A.opaque(64); return A.refresh(*i.st.F,x); }
  void set(Item&i,const Instruction*I,ValId v){ auto it=fi.num.find(I); if(it!=fi.num.end()) i.env[it->second]=v; }
  // fork on a condition bit: item continues with cond true; a copy with cond false is handed to fn
  // returns: 1 true only, 0 false only, 2 both (other filled), -1 infeasible
  int split(Item&i,Bit c,Item&other){ c=A.ev(*i.st.F,c); if(c==1) return 1; if(c==0) return 0; FactsP t=i.st.F,e=i.st.F; bool ft=A.assume(t,c),fe=A.assume(e,A.nt(c)); if(ft&&fe){ other=i; other.st.F=e; i.st.F=t; return 2; } if(ft){ i.st.F=t; return 1; } if(fe){ i.st.F=e; return 0; } return -1; }
  bool uninit(ValId v){ return A.V[v].k==V_INT&&A.V[v].hasUninit; }

  bool enter(Item&i,const BasicBlock*from,const BasicBlock*to){ // phi evaluation, iteration counters
    std::vector<std::pair<int,ValId>> as; for(auto&ph:to->phis()) as.push_back({fi.num[&ph],get(i,ph.getIncomingValueForBlock(from))}); for(auto&p:as) i.env[p.first]=p.second;
    auto&n0=fi.nest[from]; auto&n1=fi.nest[to]; std::vector<int> it; for(size_t j=0;j<n1.size();j++){ if(j<n0.size()&&n0[j]==n1[j]&&it.size()==j){ int c=i.it[j]; if(n1[j]==to&&j+1==n1.size()){ c++; if(c>O.loopcap){ alarm(i,from->getTerminator(),"loop bound exceeded",LOOPCAP); return false; } } it.push_back(c); } else it.push_back(0); }
    i.it=it; i.bb=to; i.idx=0; auto e=to->begin(); int k=0; while(isa<PHINode>(*e)){++e;k++;} i.idx=k; return true; }
  void jump(Item&&i,const BasicBlock*to){ const BasicBlock*from=i.bb; if(enter(i,from,to)) push(std::move(i)); }

  // pointer check; returns false when the path ended. On success p is a valid object pointer with offset in [0,size-n]
  bool checkPtr(Item&i,const Instruction*I,ValId p,int64_t n,bool write,bool&reexec){ reexec=false; const ValData&d=A.V[p]; if(d.k!=V_PTR){ alarm(i,I,"access through unknown pointer",UNSUP); return false; }
    if(d.obj==UNK){ bool u=A.V[d.off].hasUninit; alarm(i,I,u?"access through uninitialised pointer":"access through unknown pointer",u?ALARM:UNSUP); return false; }
    if(d.obj==0){ if(n==0) return true; alarm(i,I,"null pointer access"); return false; } Obj*o=robj(i.st,d.obj); if(!o){ alarm(i,I,"access to released or function object"); return false; } if(!o->live){ alarm(i,I,"use after release of "+o->name); return false; }
    if(write&&o->ro){ alarm(i,I,"write to read-only object "+o->name); return false; }
    if(write&&O.roglobals&&d.obj>=GLOB0){ alarm(i,I,"write to global object "+o->name); return false; }
    int64_t sz=o->size(); ValId off=d.off; if(uninit(off)){ alarm(i,I,"uninitialised offset into "+o->name); return false; }
    if(n==0) return true; if(sz<n){ alarm(i,I,"out-of-bounds "+std::string(write?"write to ":"read of ")+o->name+" ("+std::to_string(n)+" bytes in object of "+std::to_string(sz)+")"); return false; }
    Bit inb=A.nt(A.ult(*i.st.F,A.mkConst(64,sz-n),off)); std::string nm=o->name; Item other; int r=split(i,inb,other); if(r==1) return true; std::string m="out-of-bounds "+std::string(write?"write to ":"read of ")+nm+" (size "+std::to_string(sz)+", access of "+std::to_string(n)+" at "+A.str(off)+")"; if(r==0){ alarm(i,I,m); return false; } if(r==2){ alarm(other,I,m); return true; } return false; }
  // enumerate the constant offsets of a pointer; re-queue forks. returns true if offset is constant
  bool concretise(Item&i,ValId v,bool&hull,u128&lo,u128&hi,int limit=300){ hull=false; if(A.isConst(v)) return true; auto r=A.range(*i.st.F,v); lo=r.first;hi=r.second; if(hi-lo>(u128)limit||O.merge>=2){ hull=true; return false; } 
    if(A.V[v].var>=0){ auto t=A.table(v); const T256 S=i.st.F->set(A.V[v].var); std::set<u128> vals; for(int x=0;x<256;x++) if(S.get(x)) vals.insert(t[x]); for(u128 c:vals) forkEq(i,v,c); return false; }
    for(u128 c=lo;c<=hi;c++) forkEq(i,v,c); return false; }
  void forkEq(Item&i,ValId v,u128 c){ Item k=i; Bit b=A.eq(*k.st.F,v,A.mkConst(A.V[v].w,c)); if(A.assume(k.st.F,b)){ // make sure the value refreshes to the constant
      ValId nv=A.refresh(*k.st.F,v); if(!A.isConst(nv)){ Outcome o; o.k=UNSUP; o.st=k.st; o.msg="value cannot be split"; out.push_back(o); return; } push(std::move(k)); } }

  bool doLoad(Item&i,const Instruction*I,ValId p,Type*ty,ValId&res){ int64_t n=M->DL->getTypeStoreSize(ty); bool re; if(!checkPtr(i,I,p,n,false,re)) return false; p=A.refresh(*i.st.F,p); const ValData&d=A.V[p]; Obj*o=robj(i.st,d.obj); ValId off=d.off;
    if(A.isConst(off)){ int64_t k=(int64_t)A.cval(off); std::vector<ValId> by(o->b.begin()+k,o->b.begin()+k+n); res=assemble(by,ty); return true; }
    // table lookup: constant contents indexed by one input byte
    if(A.V[off].var>=0&&ty->isIntegerTy()){ auto t=A.table(off); int var=A.V[off].var; const T256 S=i.st.F->set(var); int w=ty->getIntegerBitWidth(); std::vector<u128> r(256,0); bool ok=w<=128; for(int x=0;x<256&&ok;x++) if(S.get(x)){ int64_t k=(int64_t)t[x]; std::vector<ValId> by(o->b.begin()+k,o->b.begin()+k+n); ValId e=assemble(by,ty); if(!A.isConst(e)) {ok=false;break;} r[x]=A.cval(e); } if(ok){ res=A.fromTable(var,w,r); return true; } }
    bool hull; u128 lo,hi; concretise(i,off,hull,lo,hi); if(!hull) return false; // re-queued
    // summary of all candidates
    auto rg=A.range(*i.st.F,off); int64_t l=(int64_t)rg.first,h=std::min<int64_t>((int64_t)rg.second,o->size()-n); if(ty->isIntegerTy()&&n==1){ u128 mn=255,mx=0; bool un=false; for(int64_t k=l;k<=h;k++){ if(A.V[o->b[k]].k!=V_INT||A.V[o->b[k]].hasUninit){un=true;break;} auto q=A.range(*i.st.F,o->b[k]); mn=std::min(mn,q.first); mx=std::max(mx,q.second);} if(un){ res=A.opaque(ty->getIntegerBitWidth(),"maybe-uninit"); } else res=A.opaqueR(ty->getIntegerBitWidth(),mn,mx,"elem"); i.st.joined=true; return true; }
    i.st.joined=true; if(ty->isPointerTy()) res=A.mkPtr(UNK,A.opaque(64)); else res=A.opaque((int)M->DL->getTypeSizeInBits(ty),"elem"); return true; }
  bool doStore(Item&i,const Instruction*I,ValId p,ValId v,Type*ty){ int64_t n=M->DL->getTypeStoreSize(ty); bool re; if(!checkPtr(i,I,p,n,true,re)) return false; p=A.refresh(*i.st.F,p); const ValData&d=A.V[p]; ValId off=d.off; int ob=d.obj;
    if(A.isConst(off)){ Obj*o=wobj(i.st,ob); storeBytes(o->b,(int64_t)A.cval(off),v,ty); return true; }
    bool hull; u128 lo,hi; concretise(i,off,hull,lo,hi); if(!hull) return false;
    auto rg=A.range(*i.st.F,off); Obj*o=wobj(i.st,ob); int64_t l=(int64_t)rg.first,h=std::min<int64_t>((int64_t)rg.second+n,o->size()); for(int64_t k=l;k<h;k++){ if(A.V[o->b[k]].k==V_INT&&A.V[o->b[k]].hasUninit) {} o->b[k]=A.opaque(8,"weak"); } i.st.joined=true; return true; }

  void process(Item i);
  bool call(Item&i,const CallBase*CB);   // returns true when execution continues in the same item
  void finishCall(Item&i,const CallBase*CB,std::vector<Outcome>&os);
  void unwindTo(Item&i,const CallBase*CB,int ti,ValId exc,OK kind,const std::string&msg);
  void drain(){ while(!wl.empty()){ auto it=wl.begin(); std::vector<Item> v=std::move(it->second); wl.erase(it); merge(v); for(auto&x:v){ if(steps>O.budget||(int)out.size()>O.maxout){ Outcome o; o.k=BUDGET; o.st=x.st; o.msg="budget"; out.push_back(o); return; } process(std::move(x)); } } }
  static bool memEq(const State&a,const State&b){ if(a.stk.size()!=b.stk.size()||a.heap.size()!=b.heap.size()||a.exc!=b.exc||a.caught!=b.caught) return false; auto oe=[](const ObjP&x,const ObjP&y){ if(x==y) return true; if(!x||!y) return false; return x->live==y->live&&x->b==y->b; }; for(size_t k=0;k<a.stk.size();k++) if(!oe(a.stk[k],b.stk[k])) return false; for(size_t k=0;k<a.heap.size();k++) if(!oe(a.heap[k],b.heap[k])) return false; if(a.glob.size()!=b.glob.size()) return false; auto p=a.glob.begin(),q=b.glob.begin(); for(;p!=a.glob.end();++p,++q) if(p->first!=q->first||!oe(p->second,q->second)) return false; return true; }
  // exact union of facts if they differ in one value set only
  static bool unionExact(State&a,const State&b){ const Facts&x=*a.F,&y=*b.F; if(x.sameAs(y)) return true; if(x.nf!=y.nf||x.iv!=y.iv) return false; int diff=-1; std::set<int> keys; for(auto&p:x.sets) keys.insert(p.first); for(auto&p:y.sets) keys.insert(p.first); bool asub=true,bsub=true; int nd=0; for(int k:keys){ if(x.set(k)!=y.set(k)){ nd++; diff=k; if((x.set(k)|y.set(k))!=y.set(k)) asub=false; if((x.set(k)|y.set(k))!=x.set(k)) bsub=false; } } if(bsub) return true; if(asub){ a.F=b.F; return true; } if(nd!=1) return false; auto F=x.clone(); F->sets[diff]=x.set(diff)|y.set(diff); if(F->sets[diff].full()) F->sets.erase(diff); F->exact=x.exact&&y.exact; a.F=F; return true; }
  static void unionLossy(State&a,const State&b){ auto F=std::make_shared<Facts>(); F->exact=false; for(auto&p:a.F->sets){ T256 t=p.second|b.F->set(p.first); if(!t.full()) F->sets[p.first]=t; } for(auto&p:a.F->nf){ auto q=b.F->nf.find(p.first); if(q!=b.F->nf.end()&&q->second==p.second) F->nf[p.first]=p.second; } for(auto&p:a.F->iv){ auto q=b.F->iv.find(p.first); if(q!=b.F->iv.end()) F->iv[p.first]={std::min(p.second.first,q->second.first),std::max(p.second.second,q->second.second)}; } a.F=F; a.joined=true; }
  void merge(std::vector<Item>&v){ if(v.size()<2) return; auto&live=liveAt(fi,v[0].bb,v[0].idx); std::vector<bool> lv(fi.n,false); for(int k:live) lv[k]=true; for(auto&x:v) for(int k=0;k<fi.n;k++) if(!lv[k]) x.env[k]=-1;
    auto hashOf=[&](Item&x){ size_t h=0; for(int k:live) h=hmix(h,x.env[k]); auto ho=[&](const ObjP&o){ if(!o) return; h=hmix(h,o->live); for(auto b:o->b) h=hmix(h,b); }; for(auto&o:x.st.stk) ho(o); for(auto&o:x.st.heap) ho(o); return h; };
    std::unordered_map<size_t,std::vector<size_t>> hm; std::vector<Item> r; for(auto&x:v){ size_t h=hashOf(x); bool done=false; for(size_t j:hm[h]){ Item&y=r[j]; if(y.env==x.env&&memEq(y.st,x.st)){ if(unionExact(y.st,x.st)){ y.st.joined|=x.st.joined; done=true; break; } if(O.merge>=1){ unionLossy(y.st,x.st); done=true; break; } } } if(!done){ hm[h].push_back(r.size()); r.push_back(std::move(x)); } }
    // repeated exact unions may enable further ones
    if(O.merge>=2&&(int)r.size()>1) joinAll(r,live);
    v.swap(r); }
  // ---- abstract join of states with the same constants ("shape"); coarser when too many remain
  ValId wild(const Facts&F,ValId x){ (void)F; if(x<0) return -1; const ValData&d=A.V[x]; if(d.k==V_PTR) return A.isConst(d.off)?x:-2; if(d.k==V_INT){ if(d.var==-1) return x; if(d.hasUninit) return -4; return -3; } return x; }
  void joinAll(std::vector<Item>&r,const std::vector<int>&live){
    for(int level=0;level<2;level++){ std::map<std::vector<ValId>,std::vector<size_t>> g; for(size_t j=0;j<r.size();j++){ Item&x=r[j]; std::vector<ValId> k; for(int e:live) k.push_back(wild(*x.st.F,x.env[e]));
        k.push_back(x.st.stk.size()); k.push_back(x.st.heap.size()); for(auto&p:x.st.exc) {k.push_back(p.first);k.push_back(p.second);} k.push_back(x.st.caught.size());
        auto ho=[&](const ObjP&o){ if(!o) {k.push_back(-9);return;} k.push_back(o->live); k.push_back(o->b.size()); if(level==0){ for(auto b:o->b) k.push_back(wild(*x.st.F,b)); } else for(auto b:o->b) if(A.V[b].k!=V_INT) k.push_back(b); else { bool z=A.isConst(b); k.push_back(z?-11:A.V[b].hasUninit?-4:-11); } };
        for(auto&o:x.st.stk) ho(o); for(auto&o:x.st.heap) ho(o); for(auto&p:x.st.glob){ k.push_back(p.first); ho(p.second);} g[k].push_back(j); }
      if(level==1&&(int)r.size()<=O.cap) return;
      std::vector<Item> n; for(auto&p:g){ Item x=std::move(r[p.second[0]]); for(size_t q=1;q<p.second.size();q++) joinInto(x,r[p.second[q]],live); n.push_back(std::move(x)); } r.swap(n); if((int)r.size()<=O.cap) return; } }
  ValId joinVal(Facts&NF,const Facts&f,const Facts&g,ValId a,ValId b){ if(a==b) return a; if(a<0||b<0) return -1; const ValData&x=A.V[a],&y=A.V[b]; if(x.k==V_INT&&y.k==V_INT&&x.w==y.w){ if(x.hasUninit||y.hasUninit){ if(x.hasUninit&&y.hasUninit) return A.mkUninit(x.w); return A.opaque(x.w,"maybe-uninit"); } auto p=A.range(f,a),q=A.range(g,b); (void)NF; return A.opaqueR(x.w,std::min(p.first,q.first),std::max(p.second,q.second),"join"); }
    if(x.k==V_PTR&&y.k==V_PTR&&x.obj==y.obj){ return A.mkPtr(x.obj,joinVal(NF,f,g,x.off,y.off)); } if(x.k==V_AGG&&y.k==V_AGG&&x.el.size()==y.el.size()){ auto e1=x.el,e2=y.el; std::vector<ValId> el; for(size_t i=0;i<e1.size();i++) el.push_back(joinVal(NF,f,g,e1[i],e2[i])); return A.mkAgg(el); } return A.mkPtr(UNK,A.opaque(64)); }
  void joinInto(Item&x,Item&y,const std::vector<int>&live){ FactsP fx=x.st.F,fy=y.st.F; if(!unionExact(x.st,y.st)) unionLossy(x.st,y.st); x.st.joined=true; auto F=x.st.F->clone(); std::map<std::pair<ValId,ValId>,ValId> memo; auto jv=[&](ValId a,ValId b){ if(a==b) return a; auto it=memo.find({a,b}); if(it!=memo.end()) return it->second; ValId r=joinVal(*F,*fx,*fy,a,b); memo[{a,b}]=r; return r; };
    for(int e:live) x.env[e]=jv(x.env[e],y.env[e]); auto jo=[&](ObjP&o,const ObjP&p){ if(o==p||!o||!p) return; auto n=std::make_shared<Obj>(*o); for(size_t k=0;k<n->b.size()&&k<p->b.size();k++) n->b[k]=A.V[n->b[k]].k==V_FRAG||A.V[p->b[k]].k==V_FRAG?(n->b[k]==p->b[k]?n->b[k]:A.opaque(8)):jv(n->b[k],p->b[k]); o=n; };
    for(size_t k=0;k<x.st.stk.size()&&k<y.st.stk.size();k++) jo(x.st.stk[k],y.st.stk[k]); for(size_t k=0;k<x.st.heap.size()&&k<y.st.heap.size();k++) jo(x.st.heap[k],y.st.heap[k]); for(auto&p:y.st.glob){ auto it=x.st.glob.find(p.first); if(it==x.st.glob.end()) x.st.glob[p.first]=p.second; else jo(it->second,p.second);} x.st.F=F; }
};

void Frame::process(Item i){
  const BasicBlock*bb=i.bb; auto it=bb->begin(); std::advance(it,i.idx);
  for(;it!=bb->end();++it,++i.idx){ const Instruction*I=&*it; steps++; if((steps&255)==0&&clock()>TLimit) steps=O.budget+1; if(steps>O.budget){ Outcome o; o.k=BUDGET; o.st=i.st; o.msg="budget at "+stackOf(I); out.push_back(o); return; }
    const Facts&F=*i.st.F;
    switch(I->getOpcode()){
      case Instruction::Ret: { auto*R=cast<ReturnInst>(I); Outcome o; o.k=RET; if(R->getReturnValue()) o.ret=get(i,R->getReturnValue()); o.st=std::move(i.st); while(o.st.stk.size()>base) o.st.stk.pop_back(); out.push_back(std::move(o)); return; }
      case Instruction::Br: { auto*B=cast<BranchInst>(I); if(!B->isConditional()){ jump(std::move(i),B->getSuccessor(0)); return; } ValId c=get(i,B->getCondition()); Bit b=A.V[c].bits[0]; b=A.ev(F,b); if((b>>1)==1){ alarm(i,I,"branch depends on an uninitialised value"); return; } Item o; int r=split(i,b,o); if(r==1) jump(std::move(i),B->getSuccessor(0)); else if(r==0) jump(std::move(i),B->getSuccessor(1)); else if(r==2){ jump(std::move(i),B->getSuccessor(0)); jump(std::move(o),B->getSuccessor(1)); } return; }
      case Instruction::Switch: { auto*S=cast<SwitchInst>(I); ValId c=get(i,S->getCondition()); if(uninit(c)){ alarm(i,I,"switch on an uninitialised value"); return; } bool alive=true; for(auto&k:S->cases()){ Bit e=A.eq(*i.st.F,c,constVal(k.getCaseValue())); Item o; int r=split(i,e,o); if(r==1){ jump(std::move(i),k.getCaseSuccessor()); alive=false; break; } if(r==2){ jump(std::move(i),k.getCaseSuccessor()); i=std::move(o); } if(r==-1){alive=false;break;} } if(alive) jump(std::move(i),S->getDefaultDest()); return; }
      case Instruction::Unreachable: alarm(i,I,"unreachable code reached (missing return or contradiction)"); return;
      case Instruction::Resume: { ValId v=get(i,I->getOperand(0)); ValId p=A.V[v].k==V_AGG?A.V[v].el[0]:v; Outcome o; o.k=THROW; o.exc=p; int ob=A.V[p].k==V_PTR?A.V[p].obj:0; auto q=i.st.exc.find(ob); o.ti=q!=i.st.exc.end()?q->second:0; o.msg="rethrown"; o.st=std::move(i.st); while(o.st.stk.size()>base) o.st.stk.pop_back(); out.push_back(std::move(o)); return; }
      case Instruction::LandingPad: { // env slot was filled by unwindTo
        break; }
      case Instruction::Alloca: { auto*AI=cast<AllocaInst>(I); int64_t n=M->DL->getTypeAllocSize(AI->getAllocatedType()); ValId c=get(i,AI->getArraySize()); if(A.isConst(c)) n*=(int64_t)A.cval(c); else { alarm(i,I,"variable-size alloca",UNSUP); return; } int id=newStack(i.st,n,"local '"+AI->getName().str()+"' of "+shortn(fname(f))); set(i,I,A.mkPtrC(id,0)); break; }
      case Instruction::Load: { ValId r; ValId p=get(i,I->getOperand(0)); if(!doLoad(i,I,p,I->getType(),r)) return; set(i,I,r); break; }
      case Instruction::Store: { ValId v=get(i,I->getOperand(0)),p=get(i,I->getOperand(1)); if(!doStore(i,I,p,v,I->getOperand(0)->getType())) return; break; }
      case Instruction::GetElementPtr: { auto*G=cast<GetElementPtrInst>(I); ValId p=get(i,G->getPointerOperand()); if(A.V[p].k!=V_PTR){ set(i,I,A.mkPtr(UNK,A.opaque(64))); break; } ValId off=A.V[p].off; int ob=A.V[p].obj; 
        for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*idx=gi.getOperand(); if(StructType*ST=gi.getStructTypeOrNull()){ unsigned k=cast<ConstantInt>(idx)->getZExtValue(); off=A.add(F,off,A.mkConst(64,M->DL->getStructLayout(ST)->getElementOffset(k))); } else { ValId x=get(i,idx); int w=A.V[x].w; if(w<64) x=A.ext(F,x,64,true); int64_t es=M->DL->getTypeAllocSize(gi.getIndexedType()); off=A.add(F,off,A.mul(F,x,A.mkConst(64,(u128)(u64)es))); } }
        set(i,I,A.mkPtr(ob,off)); break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: { ValId a=get(i,I->getOperand(0)),b=get(i,I->getOperand(1)); unsigned op=I->getOpcode(); int w=A.V[a].w;
        if(A.V[a].k!=V_INT||A.V[b].k!=V_INT){ set(i,I,A.opaque((int)M->DL->getTypeSizeInBits(I->getType()))); break; }
        if(cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()&&w<=64){ i128 al,ah,bl,bh; if(!uninit(a)&&!uninit(b)&&A.srange(F,a,al,ah)&&A.srange(F,b,bl,bh)){ i128 lo,hi; if(op==Instruction::Add){lo=al+bl;hi=ah+bh;} else if(op==Instruction::Sub){lo=al-bh;hi=ah-bl;} else { i128 q[4]={al*bl,al*bh,ah*bl,ah*bh}; lo=*std::min_element(q,q+4); hi=*std::max_element(q,q+4);} i128 mx=((i128)1<<(w-1))-1,mn=-((i128)1<<(w-1)); if(hi<mn||lo>mx){ alarm(i,I,"signed overflow"); return; } if(lo<mn||hi>mx) { i.st.softalarms++; } } }
        set(i,I,op==Instruction::Add?A.add(F,a,b):op==Instruction::Sub?A.sub(F,a,b):A.mul(F,a,b)); break; }
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: { ValId a=get(i,I->getOperand(0)),b=get(i,I->getOperand(1)); if(uninit(a)||uninit(b)){ set(i,I,A.mkUninit(A.V[a].w)); break; } Bit z=A.eq(F,b,A.mkConst(A.V[b].w,0)); Item o; int r=split(i,z,o); if(r==1){ alarm(i,I,"division by zero"); return; } if(r==2){ alarm(i,I,"division by zero"); i=std::move(o); } if(r==-1) return; const Facts&G=*i.st.F; unsigned op=I->getOpcode(); set(i,I,op==Instruction::UDiv?A.udiv(G,a,b):op==Instruction::URem?A.urem(G,a,b):A.sdivrem(G,a,b,op==Instruction::SRem)); break; }
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { ValId a=get(i,I->getOperand(0)),b=get(i,I->getOperand(1)); int w=A.V[a].w; if(uninit(b)){ set(i,I,A.mkUninit(w)); break; } Bit bad=A.nt(A.ult(F,b,A.mkConst(w,w))); Item o; int r=split(i,bad,o); if(r==1){ alarm(i,I,"shift by "+A.str(b)+", not less than the width "+std::to_string(w)); return; } if(r==2){ alarm(i,I,"shift by "+A.str(b)+", not less than the width "+std::to_string(w)); i=std::move(o); } if(r==-1) return;
        b=A.refresh(*i.st.F,b); a=A.refresh(*i.st.F,a); if(!A.isConst(b)&&!A.sameSingle(a,b)&&O.merge<2){ bool hull; u128 lo,hi; concretise(i,b,hull,lo,hi,130); if(!hull) return; }
        const Facts&G=*i.st.F; set(i,I,I->getOpcode()==Instruction::Shl?A.shl(G,a,b):A.lshr(G,a,b,I->getOpcode()==Instruction::AShr)); break; }
      case Instruction::And: case Instruction::Or: case Instruction::Xor: { ValId a=get(i,I->getOperand(0)),b=get(i,I->getOperand(1)); if(A.V[a].k!=V_INT||A.V[b].k!=V_INT){ set(i,I,A.opaque((int)M->DL->getTypeSizeInBits(I->getType()))); break; } set(i,I,A.bitop(F,I->getOpcode()==Instruction::And?0:I->getOpcode()==Instruction::Or?1:2,a,b)); break; }
      case Instruction::ICmp: { auto*C=cast<ICmpInst>(I); ValId a=get(i,I->getOperand(0)),b=get(i,I->getOperand(1)); auto P=C->getPredicate(); Bit r=0; 
        if(I->getOperand(0)->getType()->isPointerTy()){ const ValData&x=A.V[a],&y=A.V[b]; bool isEq=P==CmpInst::ICMP_EQ||P==CmpInst::ICMP_NE; if(x.obj==UNK||y.obj==UNK) r=A.mkOpaque(); else if(x.obj==y.obj){ if(isEq) r=A.eq(F,x.off,y.off); else { a=x.off;b=y.off; goto intcmp; } } else if(isEq) r=0; else r=A.mkOpaque(); if(P==CmpInst::ICMP_NE) r=A.nt(r); set(i,I,A.mkInt({r})); break; }
        if(A.V[a].k!=V_INT||A.V[b].k!=V_INT){ set(i,I,A.mkInt({A.mkOpaque()})); break; }
        intcmp:
        switch(P){ case CmpInst::ICMP_EQ: r=A.eq(F,a,b); break; case CmpInst::ICMP_NE: r=A.nt(A.eq(F,a,b)); break; case CmpInst::ICMP_ULT: r=A.ult(F,a,b); break; case CmpInst::ICMP_UGT: r=A.ult(F,b,a); break; case CmpInst::ICMP_ULE: r=A.nt(A.ult(F,b,a)); break; case CmpInst::ICMP_UGE: r=A.nt(A.ult(F,a,b)); break; case CmpInst::ICMP_SLT: r=A.slt(F,a,b); break; case CmpInst::ICMP_SGT: r=A.slt(F,b,a); break; case CmpInst::ICMP_SLE: r=A.nt(A.slt(F,b,a)); break; case CmpInst::ICMP_SGE: r=A.nt(A.slt(F,a,b)); break; default: r=A.mkOpaque(); }
        r=A.ev(F,r); set(i,I,A.mkInt({r})); break; }
      case Instruction::Select: { ValId c=get(i,I->getOperand(0)),a=get(i,I->getOperand(1)),b=get(i,I->getOperand(2)); Bit cb=A.ev(F,A.V[c].bits[0]); if(cb<2){ set(i,I,cb?a:b); break; } if(a==b){ set(i,I,a); break; } if((cb>>1)==1){ alarm(i,I,"selection depends on an uninitialised value"); return; }
        if(A.V[a].k==V_INT&&A.V[b].k==V_INT&&!A.V[a].hasTerm&&!A.V[b].hasTerm){ std::vector<Bit> r(A.V[a].w); for(int k=0;k<A.V[a].w;k++) r[k]=A.mkMux(cb,A.V[a].bits[k],A.V[b].bits[k]); set(i,I,A.mkInt(r)); break; }
        Item o; int r=split(i,cb,o); if(r==-1) return; set(i,I,r==0?b:a); if(r==2){ o.env[fi.num[I]]=b; o.idx++; push(std::move(o)); } break; }
      case Instruction::ZExt: case Instruction::SExt: { ValId a=get(i,I->getOperand(0)); set(i,I,A.ext(F,a,I->getType()->getIntegerBitWidth(),I->getOpcode()==Instruction::SExt)); break; }
      case Instruction::Trunc: { ValId a=get(i,I->getOperand(0)); if(A.V[a].k!=V_INT){ set(i,I,A.opaque(I->getType()->getIntegerBitWidth())); break;} set(i,I,A.trunc(F,a,I->getType()->getIntegerBitWidth())); break; }
      case Instruction::PtrToInt: { ValId p=get(i,I->getOperand(0)); int w=I->getType()->getIntegerBitWidth(); if(A.V[p].k==V_PTR&&A.V[p].obj==0&&w==64){ set(i,I,A.V[p].off); break; } if(A.V[p].k==V_PTR&&A.V[p].obj>0&&w==64){ static std::map<std::pair<Mod*,int>,int> dummy; std::vector<int64_t> k={777,A.V[p].obj}; auto t=A.tmap.find(k); int id; if(t!=A.tmap.end()) id=t->second; else { id=A.newOpaqueTerm(64,4096,((u128)1<<46),"base"); A.Tm[id].lo=4096; A.Tm[id].name="base"; A.Tm[id].a=A.V[p].obj; A.tmap.emplace(k,id);} Lin l=A.asLin(F,A.V[p].off,64); A.linAdd(l,A.termVal(id),1); set(i,I,A.mkLin(64,l)); break; } set(i,I,A.opaque(w)); break; }
      case Instruction::IntToPtr: { ValId v=get(i,I->getOperand(0)); if(A.isConst(v)&&A.cval(v)==0){ set(i,I,A.mkPtrC(0,0)); break; } int t=A.termOf(v); if(t>=0&&A.Tm[t].op==T_OPQ&&A.Tm[t].name=="base"){ set(i,I,A.mkPtrC(A.Tm[t].a,0)); break; } if(t>=0&&A.Tm[t].op==T_LIN){ Lin l=A.Tm[t].lin; int ob=-1; for(auto&p:l.m){ int q=A.termOf(p.first); if(q>=0&&A.Tm[q].op==T_OPQ&&A.Tm[q].name=="base"&&p.second==1){ ob=A.Tm[q].a; l.m.erase(p.first); break; } } if(ob>0){ set(i,I,A.mkPtr(ob,A.mkLin(64,l))); break; } } set(i,I,A.mkPtr(UNK,A.opaque(64))); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: { ValId a=get(i,I->getOperand(0)); set(i,I,a); break; }
      case Instruction::Freeze: { ValId a=get(i,I->getOperand(0)); if(uninit(a)) a=A.opaque(A.V[a].w); set(i,I,a); break; }
      case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(I); ValId a=get(i,I->getOperand(0)); for(unsigned k:E->indices()) { if(A.V[a].k!=V_AGG){ a=-1; break; } a=A.V[a].el[k]; } if(a<0) a=I->getType()->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque((int)M->DL->getTypeSizeInBits(I->getType())); set(i,I,a); break; }
      case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(I); ValId a=get(i,I->getOperand(0)),v=get(i,I->getOperand(1)); std::function<ValId(ValId,unsigned)> ins=[&](ValId x,unsigned d)->ValId{ if(d==E->getNumIndices()) return v; auto el=A.V[x].el; unsigned k=E->getIndices()[d]; el[k]=ins(el[k],d+1); return A.mkAgg(el); }; set(i,I,ins(a,0)); break; }
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: alarm(i,I,"atomic read-modify-write",UNSUP); return;
      case Instruction::Fence: break;
      case Instruction::Call: case Instruction::Invoke: { if(!call(i,cast<CallBase>(I))) return; if(auto*IV=dyn_cast<InvokeInst>(I)){ jump(std::move(i),IV->getNormalDest()); return; } break; }
      default: { // floating point and the rest: opaque
        Type*T=I->getType(); if(T->isVoidTy()) break; if(T->isPointerTy()) set(i,I,A.mkPtr(UNK,A.opaque(64))); else set(i,I,A.opaque((int)M->DL->getTypeSizeInBits(T),"fp")); break; }
    } }
}
void Frame::unwindTo(Item&i,const CallBase*CB,int ti,ValId exc,OK kind,const std::string&msg){
  auto*IV=dyn_cast<InvokeInst>(CB);
  if(IV){ const LandingPadInst*LP=IV->getLandingPadInst(); int sel=-1; bool catches=false; for(unsigned k=0;k<LP->getNumClauses()&&!catches;k++){ if(LP->isCatch(k)){ Constant*c=LP->getClause(k); if(isa<ConstantPointerNull>(c)){ catches=true; sel=0x7ffffff0; } else { int id=globalId(cast<GlobalValue>(c->stripPointerCasts())); if(tiMatches(ti,id)){ catches=true; sel=id; } } } else { catches=true; sel=-5; } }
    if(!catches&&LP->isCleanup()) sel=0; 
    if(catches||LP->isCleanup()){ const BasicBlock*to=IV->getUnwindDest(); const BasicBlock*from=i.bb; if(!enter(i,from,to)) return; set(i,LP,A.mkAgg({exc,A.mkConst(32,(u128)(uint32_t)sel)})); i.idx++; push(std::move(i)); return; } }
  Outcome o; o.k=kind; o.ti=ti; o.exc=exc; o.msg=msg; o.st=std::move(i.st); while(o.st.stk.size()>base) o.st.stk.pop_back(); out.push_back(std::move(o));
}
static bool startsWith(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
static bool opaqueLib(const std::string&d){ // standard-library machinery whose effects are not needed
  if(M->M->getNamedValue("bf_streams_modelled")) return false;
  return d.find("basic_ostringstream")!=std::string::npos||d.find("basic_stringbuf")!=std::string::npos||d.find("basic_ostream")!=std::string::npos||d.find("std::basic_ios<")!=std::string::npos||d.find("std::ios_base")!=std::string::npos||d.find("std::locale")!=std::string::npos; }

bool Frame::call(Item&i,const CallBase*CB){
  const Instruction*I=CB; 
  // intrinsics
  if(auto*II=dyn_cast<IntrinsicInst>(CB)){ auto id=II->getIntrinsicID(); const Facts&F=*i.st.F;
    switch(id){ case Intrinsic::lifetime_start: { ValId p=get(i,II->getArgOperand(1)); if(A.V[p].k==V_PTR){ Obj*o=robj(i.st,A.V[p].obj); if(o){ o=wobj(i.st,A.V[p].obj); ValId u=A.mkUninit(8); for(auto&x:o->b) x=u; } } return true; }
      case Intrinsic::lifetime_end: { ValId p=get(i,II->getArgOperand(1)); if(A.V[p].k==V_PTR){ Obj*o=robj(i.st,A.V[p].obj); if(o){ o=wobj(i.st,A.V[p].obj); ValId u=A.mkUninit(8); for(auto&x:o->b) x=u; } } return true; }
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: return true;
      case Intrinsic::assume: { ValId c=get(i,II->getArgOperand(0)); Bit b=A.ev(F,A.V[c].bits[0]); Item o; int r=split(i,b,o); if(r==0){ alarm(i,I,"violated assumption"); return false; } return r!=-1; }
      case Intrinsic::expect: set(i,I,get(i,II->getArgOperand(0))); return true;
      case Intrinsic::is_constant: set(i,I,A.mkConst(1,0)); return true;
      case Intrinsic::objectsize: set(i,I,A.mkConst(64,~(u128)0)); return true;
      case Intrinsic::trap: alarm(i,I,"trap"); return false;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { ValId a=get(i,II->getArgOperand(0)),b=get(i,II->getArgOperand(1)); Bit c=(id==Intrinsic::umin||id==Intrinsic::umax)?A.ult(F,a,b):A.slt(F,a,b); Item o; int r=split(i,c,o); if(r==-1) return false; bool mn=id==Intrinsic::umin||id==Intrinsic::smin; set(i,I,(r!=0)==mn?a:b); if(r==2){ o.env[fi.num[I]]=mn?b:a; o.idx++; push(std::move(o)); } return true; }
      case Intrinsic::bswap: { ValId a=get(i,II->getArgOperand(0)); std::vector<Bit> b=A.V[a].bits,r; for(int k=(int)b.size()/8-1;k>=0;k--) r.insert(r.end(),b.begin()+k*8,b.begin()+k*8+8); set(i,I,A.mkInt(r)); return true; }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { ValId a=get(i,II->getArgOperand(0)); int w=A.V[a].w; if(A.V[a].var!=-2){ set(i,I,A.tab2(a,A.mkConst(w,0),w,[w,id](u128 x,u128){ u128 n=0; if(id==Intrinsic::ctpop){ while(x){n+=x&1;x>>=1;} } else if(id==Intrinsic::ctlz){ for(int k=w-1;k>=0&&!((x>>k)&1);k--) n++; } else { for(int k=0;k<w&&!((x>>k)&1);k++) n++; } return n;})); return true; }
          if(id!=Intrinsic::ctpop){ // scan for the first possibly-set bit
            for(int k=0;k<w;k++){ int pos=id==Intrinsic::ctlz?w-1-k:k; Bit b=A.ev(*i.st.F,A.V[a].bits[pos]); Item o; int r=split(i,b,o); if(r==1){ set(i,I,A.mkConst(w,k)); return true; } if(r==2){ i.env[fi.num[I]]=A.mkConst(w,k); i.idx++; push(std::move(i)); i=std::move(o); } if(r==-1) return false; } set(i,I,A.mkConst(w,w)); return true; }
          set(i,I,A.opaqueR(w,0,w,"ctpop")); return true; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: { ValId a=get(i,II->getArgOperand(0)),b=get(i,II->getArgOperand(1)); bool ad=id==Intrinsic::uadd_with_overflow; ValId r=ad?A.add(F,a,b):A.sub(F,a,b); Bit o=ad?A.ult(F,r,a):A.ult(F,a,b); set(i,I,A.mkAgg({r,A.mkInt({o})})); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr: { ValId a=get(i,II->getArgOperand(0)),b=get(i,II->getArgOperand(1)),s=get(i,II->getArgOperand(2)); int w=A.V[a].w; if(A.isConst(s)){ int k=(int)(A.cval(s)%w); std::vector<Bit> cat=A.V[b].bits; cat.insert(cat.end(),A.V[a].bits.begin(),A.V[a].bits.end()); int st=id==Intrinsic::fshl?w-k:k; std::vector<Bit> r(cat.begin()+st,cat.begin()+st+w); set(i,I,A.mkInt(r)); } else set(i,I,A.opaque(w)); return true; }
      case Intrinsic::eh_typeid_for: { auto*g=cast<GlobalValue>(II->getArgOperand(0)->stripPointerCasts()); set(i,I,A.mkConst(32,(u128)(uint32_t)globalId(g))); return true; }
      case Intrinsic::memcpy: case Intrinsic::memmove: { ValId d=get(i,II->getArgOperand(0)),s=get(i,II->getArgOperand(1)),n=get(i,II->getArgOperand(2)); if(!A.isConst(n)){ bool hull; u128 lo,hi; concretise(i,n,hull,lo,hi,200); if(hull){ // bound check on the hull
              bool re; if(!checkPtr(i,I,s,(int64_t)std::min<u128>(lo,1<<20),false,re)||!checkPtr(i,I,d,(int64_t)std::min<u128>(lo,1<<20),true,re)) return false; Obj*o=A.V[d].obj>0?wobj(i.st,A.V[d].obj):nullptr; if(o) for(auto&x:o->b) x=A.opaque(8); i.st.joined=true; i.st.softalarms++; return true; } return false; }
          int64_t k=(int64_t)A.cval(n); if(k==0) return true; if(k<0||k>(1<<24)){ alarm(i,I,"copy of "+A.str(n)+" bytes"); return false; } bool re; if(!checkPtr(i,I,s,k,false,re)||!checkPtr(i,I,d,k,true,re)) return false; s=A.refresh(*i.st.F,s); d=A.refresh(*i.st.F,d); bool hull; u128 lo,hi; 
          if(!A.isConst(A.V[s].off)){ concretise(i,A.V[s].off,hull,lo,hi); if(!hull) return false; Obj*o=wobj(i.st,A.V[d].obj); for(auto&x:o->b) x=A.opaque(8); i.st.joined=true; return true; }
          if(!A.isConst(A.V[d].off)){ concretise(i,A.V[d].off,hull,lo,hi); if(!hull) return false; Obj*o=wobj(i.st,A.V[d].obj); for(auto&x:o->b) x=A.opaque(8); i.st.joined=true; return true; }
          Obj*so=robj(i.st,A.V[s].obj); int64_t a=(int64_t)A.cval(A.V[s].off),b=(int64_t)A.cval(A.V[d].off); std::vector<ValId> tmp(so->b.begin()+a,so->b.begin()+a+k); Obj*dob=wobj(i.st,A.V[d].obj); std::copy(tmp.begin(),tmp.end(),dob->b.begin()+b); return true; }
      case Intrinsic::memset: { ValId d=get(i,II->getArgOperand(0)),v=get(i,II->getArgOperand(1)),n=get(i,II->getArgOperand(2)); if(!A.isConst(n)){ bool hull; u128 lo,hi; concretise(i,n,hull,lo,hi,200); if(hull) alarm(i,I,"memset with unknown size",UNSUP); return false; } int64_t k=(int64_t)A.cval(n); if(!k) return true; bool re; if(!checkPtr(i,I,d,k,true,re)) return false; d=A.refresh(*i.st.F,d); if(!A.isConst(A.V[d].off)){ bool hull; u128 lo,hi; concretise(i,A.V[d].off,hull,lo,hi); if(!hull) return false; Obj*o=wobj(i.st,A.V[d].obj); for(auto&x:o->b) x=A.opaque(8); return true; } Obj*o=wobj(i.st,A.V[d].obj); int64_t b=(int64_t)A.cval(A.V[d].off); for(int64_t q=0;q<k;q++) o->b[b+q]=v; return true; }
      default: { Type*T=I->getType(); M->ext.insert("intrinsic "+II->getCalledFunction()->getName().str()); if(!T->isVoidTy()) set(i,I,T->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque((int)M->DL->getTypeSizeInBits(T))); return true; } } }
  const Function*callee=CB->getCalledFunction(); if(!callee){ if(auto*al=dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) callee=dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); }
  if(!callee){ ValId p=get(i,CB->getCalledOperand()); if(A.V[p].k==V_PTR&&A.V[p].obj>=FUN0) callee=cast<Function>(M->gl[A.V[p].obj-FUN0]); else { alarm(i,I,"indirect call through unknown pointer",UNSUP); return false; } }
  std::vector<ValId> args; for(auto&a:CB->args()) args.push_back(get(i,a.get()));
  std::string nm=callee->getName().str(); const Facts&F=*i.st.F;
  auto retv=[&](ValId v){ if(!I->getType()->isVoidTy()) set(i,I,v); return true; };
  auto constArg=[&](ValId v,bool&requeued)->bool{ requeued=false; if(A.isConst(v)) return true; bool hull; u128 lo,hi; concretise(i,v,hull,lo,hi,200); if(!hull) requeued=true; return false; };
  // ---- allocation
  if(nm=="_Znwm"||nm=="_Znam"||nm=="malloc"||nm=="_ZnwmSt11align_val_t"){ bool rq; if(!constArg(args[0],rq)){ if(rq) return false; auto r=A.range(F,args[0]); if(r.second<=4096){ i.st.joined=true; return retv(A.mkPtrC(newHeap(i.st,(int64_t)r.second,"heap block"),0)); } alarm(i,I,"allocation of unknown size",UNSUP); return false; } u128 n=A.cval(args[0]); if(n>(1<<22)){ alarm(i,I,"huge allocation",UNSUP); return false; } return retv(A.mkPtrC(newHeap(i.st,(int64_t)n,"heap block"),0)); }
  if(nm=="_ZdlPv"||nm=="_ZdlPvm"||nm=="_ZdaPv"||nm=="_ZdaPvm"||nm=="free"){ const ValData&d=A.V[args[0]]; if(d.k==V_PTR&&d.obj>=HEAP0&&d.obj<GLOB0){ Obj*o=robj(i.st,d.obj); if(!o||!o->live){ alarm(i,I,"double release"); return false; } o=wobj(i.st,d.obj); o->live=false; o->b.clear(); } else if(d.k==V_PTR&&d.obj!=0&&d.obj!=UNK){ alarm(i,I,"release of a non-heap object"); return false; } return true; }
  if(nm=="__cxa_allocate_exception"){ bool rq; if(!constArg(args[0],rq)) return false; return retv(A.mkPtrC(newHeap(i.st,(int64_t)A.cval(args[0]),"exception object"),0)); }
  if(nm=="__cxa_free_exception") return true;
  if(nm=="__cxa_throw"){ int ob=A.V[args[0]].obj,ti=A.V[args[1]].obj; i.st.exc[ob]=ti; std::string m="exception "+(ti>=GLOB0?demangle(M->gl[ti-GLOB0]->getName().str()):std::string("?"))+" thrown at "+stackOf(I); unwindTo(i,CB,ti,args[0],THROW,m); return false; }
  if(nm=="__cxa_begin_catch"){ if(A.V[args[0]].k==V_PTR) i.st.caught.push_back(A.V[args[0]].obj); return retv(args[0]); }
  if(nm=="__cxa_end_catch"){ if(!i.st.caught.empty()) i.st.caught.pop_back(); return true; }
  if(nm=="__cxa_rethrow"){ int ob=i.st.caught.empty()?0:i.st.caught.back(); int ti=i.st.exc.count(ob)?i.st.exc[ob]:0; unwindTo(i,CB,ti,A.mkPtrC(ob,0),THROW,"rethrown"); return false; }
  if(nm=="__clang_call_terminate"||nm=="_ZSt9terminatev"){ alarm(i,I,"std::terminate called (an exception escaped a non-throwing function)",TERMINATE); return false; }
  if(nm=="abort"||nm=="__assert_fail"||nm=="_ZSt21__glibcxx_assert_failPKciS0_S0_"){ alarm(i,I,nm=="abort"?"abort called":"assertion failed",ALARM); return false; }
  if(startsWith(nm,"_ZSt20__throw_length_error")||startsWith(nm,"_ZSt20__throw_out_of_range")||startsWith(nm,"_ZSt19__throw_logic_error")||startsWith(nm,"_ZSt24__throw_out_of_range_fmt")||startsWith(nm,"_ZSt17__throw_bad_alloc")||startsWith(nm,"_ZSt16__throw_bad_cast")||startsWith(nm,"_ZSt24__throw_invalid_argument")||startsWith(nm,"_ZSt25__throw_bad_function_callv")||startsWith(nm,"_ZSt28__throw_bad_array_new_length")){ const char*ti=nm.find("length")!=std::string::npos?"_ZTISt12length_error":nm.find("range")!=std::string::npos?"_ZTISt12out_of_range":nm.find("invalid_arg")!=std::string::npos?"_ZTISt16invalid_argument":nm.find("logic")!=std::string::npos?"_ZTISt11logic_error":"_ZTISt9exception"; GlobalValue*g=M->M->getNamedValue(ti); if(!g) g=new GlobalVariable(*M->M,PointerType::get(Ctx,0),true,GlobalValue::ExternalLinkage,nullptr,ti); int t=globalId(g); int ob=newHeap(i.st,16,"exception object"); i.st.exc[ob]=t; unwindTo(i,CB,t,A.mkPtrC(ob,0),THROW,demangle(ti)+std::string(" thrown by the standard library at ")+stackOf(I)); return false; }
  if(nm=="__cxa_guard_acquire"){ ValId p=args[0]; ValId r; if(!doLoad(i,I,p,Type::getInt8Ty(Ctx),r)) return false; Bit z=A.eq(*i.st.F,r,A.mkConst(8,0)); if(z<2) return retv(A.mkConst(32,z)); return retv(A.mkConst(32,1)); }
  if(nm=="__cxa_guard_release"){ Obj*o=wobj(i.st,A.V[args[0]].obj); o->b[0]=A.mkConst(8,1); return true; }
  if(nm=="__cxa_guard_abort"||nm=="__cxa_atexit"||nm=="atexit") return retv(A.mkConst(32,0));
  if(nm=="memcmp"||nm=="bcmp"){ bool rq; if(!constArg(args[2],rq)){ if(!rq) return retv(A.opaque(32)); return false; } int64_t n=(int64_t)A.cval(args[2]); if(!n) return retv(A.mkConst(32,0)); bool re; if(!checkPtr(i,I,args[0],n,false,re)||!checkPtr(i,I,args[1],n,false,re)) return false; ValId p=A.refresh(*i.st.F,args[0]),q=A.refresh(*i.st.F,args[1]); if(!A.isConst(A.V[p].off)||!A.isConst(A.V[q].off)){ bool hull; u128 lo,hi; ValId w=A.isConst(A.V[p].off)?A.V[q].off:A.V[p].off; concretise(i,w,hull,lo,hi); if(!hull) return false; return retv(A.opaque(32)); }
    Obj*x=robj(i.st,A.V[p].obj),*y=robj(i.st,A.V[q].obj); std::vector<Bit> L,R; for(int64_t k=n-1;k>=0;k--){ ValId a=x->b[A.cval(A.V[p].off)+k],b=y->b[A.cval(A.V[q].off)+k]; if(A.V[a].k!=V_INT||A.V[b].k!=V_INT){ return retv(A.opaque(32)); } auto&ba=A.V[a].bits; L.insert(L.end(),ba.begin(),ba.end()); auto&bb2=A.V[b].bits; R.insert(R.end(),bb2.begin(),bb2.end()); }
    ValId l=A.mkInt(L),r=A.mkInt(R); Bit e=A.eq(*i.st.F,l,r); Bit lt=A.ult(*i.st.F,l,r); if(e==UINT32_MAX) return false; // result: 0 / -1 / 1
    if(e==Algebra::UNI||lt==Algebra::UNI) return retv(A.mkUninit(32)); std::vector<Bit> res(32,lt); res[0]=A.nt(e); for(int k=1;k<32;k++) res[k]=A.mkAnd(lt,A.nt(e)); return retv(A.mkInt(res)); }
  if(nm=="strlen"){ const ValData&d=A.V[args[0]]; if(d.k!=V_PTR||!A.isConst(d.off)||!robj(i.st,d.obj)) return retv(A.opaqueR(64,0,1<<20,"strlen")); int64_t o=(int64_t)A.cval(d.off); int64_t k=o; while(true){ Obj*ob=robj(i.st,d.obj); if(k<0||k>=ob->size()){ alarm(i,I,"strlen runs past "+ob->name); return false; } ValId c=ob->b[k]; if(uninit(c)){ alarm(i,I,"strlen reads uninitialised memory"); return false; } Bit z=A.eq(*i.st.F,c,A.mkConst(8,0)); Item ot; int r=split(i,z,ot); if(r==1){ return retv(A.mkConst(64,k-o)); } if(r==2){ i.env[fi.num[I]]=A.mkConst(64,k-o); auto*IV=dyn_cast<InvokeInst>(CB); if(IV) jump(std::move(i),IV->getNormalDest()); else { i.idx++; push(std::move(i)); } i=std::move(ot); } if(r==-1) return false; k++; } }
  if(nm=="memchr"||nm=="wmemchr"||nm=="wcslen"){ return retv(I->getType()->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque(64)); }
  if(nm=="toupper"||nm=="tolower"||nm=="isspace"||nm=="isdigit"||nm=="isalpha"){ if(A.V[args[0]].var>=-1){ return retv(A.tab2(args[0],A.mkConst(32,0),32,[nm](u128 x,u128){ int c=(int)(uint32_t)x; if(c<0||c>127) return x; return (u128)(uint32_t)(nm=="toupper"?toupper(c):nm=="tolower"?tolower(c):nm=="isspace"?(isspace(c)!=0):nm=="isdigit"?(isdigit(c)!=0):(isalpha(c)!=0)); })); } return retv(A.opaque(32)); }
  std::string dn=fname(callee);
  for(auto&sm:Summ) if(dn.find(sm.first)!=std::string::npos){ // summary: fills its last pointer argument with any bytes, returns any length up to the bound
    M->ext.insert("summary "+sm.first); for(int k=(int)args.size()-1;k>=0;k--) if(A.V[args[k]].k==V_PTR){ Obj*o=robj(i.st,A.V[args[k]].obj); if(!o||o->ro) break; o=wobj(i.st,A.V[args[k]].obj); for(auto&x:o->b) x=A.opaque(8,"text"); break; }
    i.st.joined=true; if(!I->getType()->isVoidTy()) set(i,I,A.opaqueR((int)M->DL->getTypeSizeInBits(I->getType()),0,sm.second,"length")); return true; }
  bool msg=dn.find("::error::concatenate<")!=std::string::npos;
  if(callee->isDeclaration()||opaqueLib(dn)||msg){
    M->ext.insert(dn);
    // a std::string returned by the stream machinery (message text): some valid string; its text is not part of any property
    if(args.size()&&CB->paramHasAttr(0,Attribute::StructRet)){ Type*T=CB->getParamStructRetType(0); if(auto*ST=dyn_cast_or_null<StructType>(T)) if(ST->hasName()&&ST->getName().startswith("class.std::__cxx11::basic_string")&&M->DL->getTypeAllocSize(T)==32&&A.V[args[0]].k==V_PTR&&A.isConst(A.V[args[0]].off)&&robj(i.st,A.V[args[0]].obj)){
        bool re; if(!checkPtr(i,I,args[0],32,true,re)) return false; Obj*o=wobj(i.st,A.V[args[0]].obj); int64_t off=(int64_t)A.cval(A.V[args[0]].off); storeBytes(o->b,off,A.mkPtrC(A.V[args[0]].obj,off+16),PointerType::get(Ctx,0)); storeBytes(o->b,off+8,A.mkConst(64,0),Type::getInt64Ty(Ctx)); storeBytes(o->b,off+16,A.mkConst(8,0),Type::getInt8Ty(Ctx)); return true; } }
    // havoc: objects reachable through non-readonly pointer arguments
    for(unsigned k=0;k<args.size();k++){ if(A.V[args[k]].k!=V_PTR) continue; if(k<callee->arg_size()&&(callee->getArg(k)->onlyReadsMemory())) continue; Obj*o=robj(i.st,A.V[args[k]].obj); if(!o||o->ro||A.V[args[k]].obj>=GLOB0) continue; if(A.V[args[k]].obj<HEAP0||o->live){ if(i.st.exc.count(A.V[args[k]].obj)) continue; if(dn.find("error::")!=std::string::npos&&dn.find("_error(")!=std::string::npos){ // exception base-class constructor: only its own 16 bytes
            o=wobj(i.st,A.V[args[k]].obj); if(k==0) for(size_t q=0;q<16&&q<o->b.size();q++) o->b[q]=A.opaque(8,"what"); continue; }
          o=wobj(i.st,A.V[args[k]].obj); for(auto&x:o->b) x=A.opaque(8,"havoc"); i.st.joined=true; } }
    Type*T=I->getType(); if(!T->isVoidTy()){ if(T->isStructTy()){ std::vector<ValId> el; for(unsigned k=0;k<T->getStructNumElements();k++){ Type*et=T->getStructElementType(k); el.push_back(et->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque((int)M->DL->getTypeSizeInBits(et))); } set(i,I,A.mkAgg(el)); }
      else if(T->isPointerTy()&&opaqueLib(dn)&&args.size()&&A.V[args[0]].k==V_PTR) set(i,I,args[0]); else set(i,I,T->isPointerTy()?A.mkPtr(UNK,A.opaque(64)):A.opaque((int)M->DL->getTypeSizeInBits(T))); }
    return true; }
  if((int)callstk.size()>O.depth){ alarm(i,I,"call depth",UNSUP); return false; }
  // byval arguments
  for(unsigned k=0;k<args.size();k++) if(k<callee->arg_size()&&CB->isByValArgument(k)){ Type*T=CB->getParamByValType(k); int64_t n=M->DL->getTypeAllocSize(T); bool re; if(!checkPtr(i,I,args[k],n,false,re)) return false; Obj*o=robj(i.st,A.V[args[k]].obj); if(!A.isConst(A.V[args[k]].off)){ alarm(i,I,"byval",UNSUP); return false; } int64_t off=(int64_t)A.cval(A.V[args[k]].off); std::vector<ValId> b(o->b.begin()+off,o->b.begin()+off+n); int id=newStack(i.st,n,"by-value argument"); i.st.stk[id]->b=b; args[k]=A.mkPtrC(id,0); }
  size_t sp=i.st.stk.size(); (void)sp;
  callstk.push_back(I); std::vector<Outcome> os; { State st=i.st; os=run(callee,args,std::move(st)); } callstk.pop_back();
  int rets=0; for(auto&o:os) if(o.k==RET) rets++;
  bool cont=false; Item keep; 
  for(auto&o:os){ if(o.k==RET){ Item k; k.env=i.env; k.bb=i.bb; k.idx=i.idx; k.it=i.it; k.st=std::move(o.st); if(!I->getType()->isVoidTy()) set(k,I,o.ret>=0?A.refresh(*k.st.F,o.ret):A.opaque(64)); if(rets==1){ keep=std::move(k); cont=true; } else { if(auto*IV=dyn_cast<InvokeInst>(CB)) jump(std::move(k),IV->getNormalDest()); else { k.idx++; push(std::move(k)); } } }
    else if(o.k==THROW){ Item k; k.env=i.env; k.bb=i.bb; k.idx=i.idx; k.it=i.it; k.st=std::move(o.st); unwindTo(k,CB,o.ti,o.exc,THROW,o.msg); }
    else out.push_back(std::move(o)); }
  if(cont){ i=std::move(keep); return true; } return false; }

static std::vector<Outcome> run(const Function*f,std::vector<ValId> args,State st){ std::vector<Outcome> out; if(M->analysedS.insert(f).second) M->analysed.push_back(f); Frame fr(f,out); fr.base=st.stk.size(); Item i; i.env.assign(fr.fi.n,-1); unsigned k=0; for(auto&a:f->args()){ if(k<args.size()) i.env[fr.fi.num[&a]]=args[k]; k++; } i.st=std::move(st); i.bb=&f->getEntryBlock(); i.idx=0; i.it.clear(); fr.push(std::move(i)); fr.drain();
  // unify equal returns
  if(out.size()>1){ std::vector<Outcome> r; for(auto&o:out){ bool done=false; if(o.k==RET) for(auto&p:r) if(p.k==RET&&p.ret==o.ret&&Frame::memEq(p.st,o.st)){ if(Frame::unionExact(p.st,o.st)){ p.st.joined|=o.st.joined; done=true; break; } if(O.merge>=1){ Frame::unionLossy(p.st,o.st); done=true; break; } } if(!done) r.push_back(std::move(o)); } out.swap(r); }
  if(O.merge>=2){ // join return states with the same shape
    std::vector<Outcome> r; std::vector<Item> items; for(auto&o:out){ if(o.k!=RET){ r.push_back(std::move(o)); continue; } Item x; x.st=std::move(o.st); x.env.assign(fr.fi.n+1,-1); x.env[fr.fi.n]=o.ret; items.push_back(std::move(x)); } if(items.size()>1){ std::vector<int> live={fr.fi.n}; fr.joinAll(items,live); } for(auto&x:items){ Outcome o; o.k=RET; o.ret=x.env[fr.fi.n]; o.st=std::move(x.st); r.push_back(std::move(o)); } out.swap(r); }
  return out; }

// ------------------------------------------------------------------ C interface
static std::vector<State> States; static std::vector<Outcome> Outs; static std::string Ret;
extern "C" {
void bf_limit(double secs){ TLimit=clock()+(clock_t)(secs*CLOCKS_PER_SEC); }
int bf_load(const char*path){ SMDiagnostic E; auto m=parseIRFile(path,E,Ctx); if(!m){ fprintf(stderr,"%s\n",E.getMessage().str().c_str()); return -1; } auto q=std::make_unique<Mod>(); q->M=std::move(m); q->DL=&q->M->getDataLayout(); q->bigEndian=q->DL->isBigEndian(); Mods.push_back(std::move(q)); return Mods.size()-1; }
void bf_use(int m){ M=Mods[m].get(); }
void bf_reset(){ A.reset(); States.clear(); Outs.clear(); for(auto&m:Mods) m->ginit.clear(); }
int bf_has(const char*fn){ auto*f=M->M->getFunction(fn); return f&&!f->isDeclaration(); }
void bf_summary(const char*s,int hi){ if(!s||!*s) Summ.clear(); else Summ.push_back({s,hi}); }
void bf_opt(long budget,int loopcap,int merge,int cap,int roglobals){ O.budget=budget;O.loopcap=loopcap;O.merge=merge;O.cap=cap;O.roglobals=roglobals; }
int bf_var(const char*n){ return A.newVar(n); }
int bf_byte(int v){ return A.mkByte(v); }
int bf_const(int w,u64 lo,u64 hi){ return A.mkConst(w,((u128)hi<<64)|lo); }
int bf_uninit(int w){ return A.mkUninit(w); }
int bf_opaque(int w,const char*n){ return A.opaque(w,n); }
int bf_concat(const int*v,int n){ std::vector<Bit> b; for(int i=0;i<n;i++){ if(A.V[v[i]].k!=V_INT) return -1; auto&q=A.V[v[i]].bits; b.insert(b.end(),q.begin(),q.end()); } return A.mkInt(b); }
int bf_slice(int v,int lo,int w){ if(v<0||A.V[v].k!=V_INT||lo+w>A.V[v].w) return -1; std::vector<Bit> b(A.V[v].bits.begin()+lo,A.V[v].bits.begin()+lo+w); return A.mkInt(b); }
int bf_width(int v){ return v<0?-1:A.V[v].k==V_INT?A.V[v].w:-(int)A.V[v].k-1; }
int bf_state(){ States.emplace_back(); return States.size()-1; }
int bf_state_copy(int s){ State c=States[s]; States.push_back(c); return States.size()-1; }
int bf_obj(int s,const int*v,int n,const char*name,int ro){ State&S=States[s]; int id=newStack(S,n,name); for(int i=0;i<n;i++) if(v[i]>=0) S.stk[id]->b[i]=v[i]; S.stk[id]->ro=ro; return id; }
void bf_obj_ro(int s,int id,int ro){ wobj(States[s],id)->ro=ro; }
int bf_ptr(int ob,long off){ return A.mkPtrC(ob,off); }
int bf_restrict(int s,int var,const u64*set){ State&S=States[s]; auto F=S.F->clone(); T256 t={{set[0],set[1],set[2],set[3]}}; F->sets[var]=F->set(var)&t; bool ok=!F->sets[var].empty(); S.F=F; return ok; }
int bf_assume(int s,int v){ State&S=States[s]; return A.assume(S.F,A.V[v].bits[0]); }
int bf_op(int s,int op,int a,int b){ const Facts&F=*States[s].F; switch(op){ case 0: return A.add(F,a,b); case 1: return A.sub(F,a,b); case 2: return A.mul(F,a,b); case 3: return A.bitop(F,0,a,b); case 4: return A.bitop(F,1,a,b); case 5: return A.bitop(F,2,a,b); case 6: return A.udiv(F,a,b); case 7: return A.urem(F,a,b); case 8: return A.mkInt({A.eq(F,a,b)}); case 9: return A.mkInt({A.ult(F,a,b)}); case 10: return A.bnot(a); case 11: return A.shl(F,a,b); case 12: return A.lshr(F,a,b,false); case 13: return A.mkInt({A.slt(F,a,b)}); } return -1; }
int bf_mux(int c,int a,int b){ Bit cb=A.V[c].bits[0]; std::vector<Bit> r(A.V[a].w); for(int k=0;k<A.V[a].w;k++) r[k]=A.mkMux(cb,A.V[a].bits[k],A.V[b].bits[k]); return A.mkInt(r); }
int bf_ext(int s,int a,int w,int sg){ return A.ext(*States[s].F,a,w,sg); }
int bf_table(int var,int w,const u64*t){ std::vector<u128> r(256); for(int i=0;i<256;i++) r[i]=t[i]; return A.fromTable(var,w,r); }
int bf_run(int s,const char*fn,const int*args,int n){ Outs.clear(); steps=0; callstk.clear(); auto*f=M->M->getFunction(fn); if(!f||f->isDeclaration()) return -1; std::vector<ValId> a(args,args+n); Outs=run(f,a,States[s]); return Outs.size(); }
// run the dynamic initialisers of the module's globals in state s; returns the new state, -1 when one does not return
int bf_ctors(int s){ auto*g=M->M->getGlobalVariable("llvm.global_ctors"); State st=States[s]; if(g&&g->hasInitializer()) if(auto*CA=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&op:CA->operands()){ auto*CS=dyn_cast<ConstantStruct>(op); auto*f=CS?dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()):nullptr; if(!f||f->isDeclaration()) continue; callstk.clear(); steps=0; auto os=run(f,{},st); if(os.size()!=1||os[0].k!=RET) return -1; st=std::move(os[0].st); } States.push_back(st); return States.size()-1; }
int bf_out_kind(int i){ return Outs[i].k; } int bf_out_ret(int i){ return Outs[i].ret; }
const char* bf_out_msg(int i){ return Outs[i].msg.c_str(); }
const char* bf_out_type(int i){ Ret=""; if(Outs[i].ti>=GLOB0&&Outs[i].ti<FUN0) Ret=demangle(M->gl[Outs[i].ti-GLOB0]->getName().str()); return Ret.c_str(); }
int bf_out_state(int i){ States.push_back(Outs[i].st); return States.size()-1; }
int bf_out_joined(int i){ return Outs[i].st.joined||!Outs[i].st.F->exact; }
int bf_out_soft(int i){ return Outs[i].st.softalarms; }
// the value members of a thrown exception (bytes after the std base)
int bf_out_exc_bytes(int i,int off,int n){ if(Outs[i].exc<0||A.V[Outs[i].exc].k!=V_PTR) return -1; Obj*o=robj(Outs[i].st,A.V[Outs[i].exc].obj); if(!o||off+n>o->size()) return -1; std::vector<Bit> b; for(int k=0;k<n;k++){ ValId x=o->b[off+(M->bigEndian?n-1-k:k)]; if(A.V[x].k!=V_INT) return -1; b.insert(b.end(),A.V[x].bits.begin(),A.V[x].bits.end()); } return A.refresh(*Outs[i].st.F,A.mkInt(b)); }
long bf_steps(){ return steps; }
int bf_mem(int s,int ob,long off,int n){ State&S=States[s]; Obj*o=robj(S,ob); if(!o||off<0||off+n>o->size()) return -1; std::vector<Bit> b; for(int k=0;k<n;k++){ ValId x=o->b[off+(M->bigEndian?n-1-k:k)]; if(A.V[x].k!=V_INT) return -2; b.insert(b.end(),A.V[x].bits.begin(),A.V[x].bits.end()); } return A.refresh(*S.F,A.mkInt(b)); }
int bf_heap_count(int s){ int n=0; for(auto&o:States[s].heap) if(o&&o->live) n++; return n; }
int bf_written_globals(int s){ State&S=States[s]; Ret=""; int n=0; for(auto&p:S.glob){ auto g=globalObj(p.first); if(g->b!=p.second->b){ n++; Ret+=g->name+" "; } } return n; }
const char* bf_retstr(){ return Ret.c_str(); }
void bf_range(int s,int v,u64*o){ auto r=A.range(*States[s].F,v); o[0]=(u64)r.first;o[1]=(u64)(r.first>>64);o[2]=(u64)r.second;o[3]=(u64)(r.second>>64); }
int bf_refresh(int s,int v){ return A.refresh(*States[s].F,v); }
int bf_isconst(int s,int v,u64*o){ v=A.refresh(*States[s].F,v); if(A.V[v].k!=V_INT) return 0; if(!A.isConst(v)){ auto r=A.range(*States[s].F,v); if(r.first!=r.second) return 0; o[0]=(u64)r.first;o[1]=(u64)(r.first>>64); return 1; } o[0]=(u64)A.cval(v);o[1]=(u64)(A.cval(v)>>64); return 1; }
int bf_hasuninit(int s,int v){ v=A.refresh(*States[s].F,v); return A.V[v].k==V_INT&&A.V[v].hasUninit; }
// 1: equal on every member; 0: some member (found) differs; -1: undecided; 2: uninitialised
int bf_eq(int s,int a,int b,int tries,unsigned seed){ const Facts&F=*States[s].F; Ret=""; a=A.refresh(F,a); b=A.refresh(F,b); if(A.V[a].k!=V_INT||A.V[b].k!=V_INT) return a==b?1:-1; if(A.V[a].w!=A.V[b].w) return -1; if(A.V[a].hasUninit) return 2; Bit e=A.eq(F,a,b); if(e==1) return 1;
  int res=-1; A.members(F,tries,seed,[&](Algebra::Asg&g){ u128 x,y; if(!A.cv(g,a,x)||!A.cv(g,b,y)) { if(e==0){ res=0; Ret=""; for(size_t v=0;v<g.v.size();v++) Ret+=A.varName[v]+"="+std::to_string(g.v[v])+" "; Ret+="values differ"; return true; } return false; } if(x!=y){ res=0; Ret=""; for(size_t v=0;v<g.v.size();v++) Ret+=A.varName[v]+"="+std::to_string(g.v[v])+" "; Ret+="got="+u128s(x)+" expected="+u128s(y); return true; } return false; });
  return res; }
// find a member of the state; 1 found
int bf_witness(int s,int tries,unsigned seed){ Ret=""; int ok=0; A.members(*States[s].F,tries,seed,[&](Algebra::Asg&g){ for(size_t v=0;v<g.v.size();v++) Ret+=A.varName[v]+"="+std::to_string(g.v[v])+" "; ok=1; return true; }); return ok; }
int bf_witness_val(int s,int var){ int r=-1; A.members(*States[s].F,200,1,[&](Algebra::Asg&g){ r=g.v[var]; return true; }); return r; }
void bf_getset(int s,int var,u64*o){ T256 t=States[s].F->set(var); for(int i=0;i<4;i++) o[i]=t.w[i]; }
const char* bf_str(int v){ Ret=A.str(v); return Ret.c_str(); }
int bf_nanalysed(){ return M->analysed.size(); }
const char* bf_analysed(int i){ Ret=fname(M->analysed[i]); return Ret.c_str(); }
const char* bf_externals(){ Ret=""; for(auto&x:M->ext) Ret+=x+"\n"; return Ret.c_str(); }
}
