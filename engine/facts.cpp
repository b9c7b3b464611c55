// Facts of a lowered module, one per line, for the effect analyses (C05, C25): no transformation, no execution.
//  F name flags line:file            defined function: n nounwind, s structure return, number of arguments
//  C caller callee kind line:file    call: '-' may unwind to the caller, 'T' unwinds into std::terminate, 'K' caught by catch(...), 'R' cleanup then on
//  S func what line:file init        write: g:<global> | a:<argument number> | p (loaded pointer) | r (call result)
//  P caller callee param what line init  pointer argument: what as above; r where the callee only reads
//  G name flags                      global variable: c constant, t thread local, g guard
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalAlias.h>
#include <set>
#include <map>
#include <llvm/IR/Dominators.h>
#include <cstdio>
using namespace llvm;
static std::string at(const Instruction& i) {
    if (auto* d = i.getDebugLoc().get()) return std::to_string(d->getLine()) + ":" + d->getFilename().str();
    return "0:?";
}
static void roots(const Value* v, std::set<std::string>& out, std::set<const Value*>& seen);
static std::map<const Function*, std::set<std::string>> RET;
static std::set<const Function*> BUSY;
// what a returned pointer may be based on: arguments, globals, loaded pointers
static const std::set<std::string>& retroots(const Function* f) {
    static const std::set<std::string> none;
    auto it = RET.find(f);
    if (it != RET.end()) return it->second;
    if (f->isDeclaration() || !BUSY.insert(f).second) return none;
    std::set<std::string> r;
    for (auto& b : *f) if (auto* x = dyn_cast<ReturnInst>(b.getTerminator())) if (auto* v = x->getReturnValue()) if (v->getType()->isPointerTy()) {
        std::set<const Value*> seen;
        roots(v, r, seen);
    }
    BUSY.erase(f);
    return RET[f] = r;
}
static void roots(const Value* v, std::set<std::string>& out, std::set<const Value*>& seen) {
    if (!seen.insert(v).second) return;
    if (auto* a = dyn_cast<Argument>(v)) { out.insert("a:" + std::to_string(a->getArgNo())); return; }
    if (auto* g = dyn_cast<GlobalVariable>(v)) { out.insert("g:" + g->getName().str()); return; }
    if (isa<AllocaInst>(v)) { out.insert("l"); return; }
    if (auto* o = dyn_cast<GEPOperator>(v)) return roots(o->getPointerOperand(), out, seen);
    if (auto* o = dyn_cast<BitCastOperator>(v)) return roots(o->getOperand(0), out, seen);
    if (auto* o = dyn_cast<AddrSpaceCastOperator>(v)) return roots(o->getOperand(0), out, seen);
    if (auto* o = dyn_cast<SelectInst>(v)) { roots(o->getTrueValue(), out, seen); roots(o->getFalseValue(), out, seen); return; }
    if (auto* o = dyn_cast<PHINode>(v)) { for (auto& u : o->incoming_values()) roots(u, out, seen); return; }
    if (auto* o = dyn_cast<LoadInst>(v)) {
        // a pointer kept in a local variable: the values stored there
        if (auto* al = dyn_cast<AllocaInst>(o->getPointerOperand())) {
            bool simple = true;
            std::set<const Value*> vals;
            for (auto* u : al->users()) {
                if (auto* s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == al) vals.insert(s->getValueOperand()); else simple = false; }
                else if (!isa<LoadInst>(u) && !isa<IntrinsicInst>(u)) simple = false;
            }
            if (simple) { for (auto* x : vals) roots(x, out, seen); return; }
        }
        if (auto* g = dyn_cast<GlobalVariable>(o->getPointerOperand())) { out.insert("p:" + g->getName().str()); return; }
        out.insert("p"); return;
    }
    if (auto* c = dyn_cast<CallBase>(v)) {
        if (auto* f = c->getCalledFunction()) if (f->getName() == "llvm.threadlocal.address") return roots(c->getArgOperand(0), out, seen);
        auto* op = c->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(op)) op = al->getAliaseeObject();
        auto* f = dyn_cast<Function>(op);
        if (!f || f->isDeclaration()) { out.insert("r"); return; }
        for (auto& x : retroots(f)) {
            if (x[0] == 'a') { unsigned n = std::stoul(x.substr(2)); if (n < c->arg_size()) roots(c->getArgOperand(n), out, seen); }
            else if (x != "l") out.insert(x);
        }
        return;
    }
    if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return;
    if (isa<Function>(v)) return;
    out.insert("p");
}
static char pad(const InvokeInst* i) {
    auto* lp = i->getLandingPadInst();
    for (auto& x : *i->getUnwindDest()) if (auto* c = dyn_cast<CallBase>(&x)) if (auto* f = c->getCalledFunction()) if (f->getName() == "__clang_call_terminate") return 'T';
    for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k) && isa<ConstantPointerNull>(lp->getClause(k)->stripPointerCasts())) return 'K';
    return 'R';
}
static const CallBase* named(const Instruction& i, const char* n) {
    if (auto* c = dyn_cast<CallBase>(&i)) if (auto* f = c->getCalledFunction()) if (f->getName() == n) return c;
    return nullptr;
}
// does a value depend on the arguments of its function?
static bool fromargs(const Value* v, std::set<const Value*>& seen) {
    if (isa<Argument>(v)) return true;
    if (isa<Constant>(v) || isa<BasicBlock>(v) || !seen.insert(v).second) return false;
    auto* i = dyn_cast<Instruction>(v);
    if (!i) return false;
    if (isa<AllocaInst>(i)) {
        for (auto* u : i->users()) {
            if (auto* s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == i && fromargs(s->getValueOperand(), seen)) return true; }
            else if (isa<GetElementPtrInst>(u)) { for (auto* w : u->users()) if (auto* s = dyn_cast<StoreInst>(w)) if (fromargs(s->getValueOperand(), seen)) return true; }
            else if (auto* c = dyn_cast<CallBase>(u)) { for (auto& a : c->args()) if (a.get() != i && fromargs(a.get(), seen)) return true; }
        }
        return false;
    }
    for (auto& o : i->operands()) if (fromargs(o.get(), seen)) return true;
    return false;
}
// "i": the one guarded initialisation of a local static, from nothing the caller gave; "d": from what the caller gave; "-": not an initialisation
static char guarded(const Instruction& at, const DominatorTree& dt) {
    auto& f = *at.getFunction();
    bool in = false;
    for (auto& b : f) for (auto& i : b) if (auto* a = named(i, "__cxa_guard_acquire")) if (dt.dominates(a, &at))
        for (auto& b2 : f) for (auto& j : b2) if (auto* r = named(j, "__cxa_guard_release")) if (r->getArgOperand(0) == a->getArgOperand(0) && dt.dominates(&at, r)) in = true;
    if (!in) return '-';
    std::set<const Value*> seen;
    for (auto& o : at.operands()) if (fromargs(o.get(), seen)) return 'd';
    return 'i';
}
int main(int, char** argv) {
    LLVMContext ctx;
    SMDiagnostic e;
    auto m = parseIRFile(argv[1], e, ctx);
    if (!m) { fprintf(stderr, "unreadable\n"); return 2; }
    for (auto& g : m->globals()) printf("G %s %s%s\n", g.getName().str().c_str(), g.isConstant() ? "c" : "m", g.isThreadLocal() ? "t" : "");
    for (auto& f : *m) {
        if (f.isDeclaration()) { if (f.doesNotThrow()) printf("N %s\n", f.getName().str().c_str()); continue; }
        std::string fn = f.getName().str();
        auto* sp = f.getSubprogram();
        bool sret = f.arg_size() && f.getArg(0)->hasStructRetAttr();
        DominatorTree dt(f);
        printf("F %s %s%s%u %u:%s\n", fn.c_str(), f.doesNotThrow() ? "n" : "-", sret ? "s" : "-", (unsigned) f.arg_size(), sp ? sp->getLine() : 0, sp ? sp->getFilename().str().c_str() : "?");
        for (auto& b : f) for (auto& i : b) {
            auto put = [&](const Value* ptr) {
                std::set<std::string> r; std::set<const Value*> seen;
                roots(ptr, r, seen);
                for (auto& x : r) if (x != "l") printf("S %s %s %s %c\n", fn.c_str(), x.c_str(), at(i).c_str(), x[0] == 'g' ? guarded(i, dt) : '-');
            };
            if (auto* s = dyn_cast<StoreInst>(&i)) put(s->getPointerOperand());
            else if (auto* s = dyn_cast<AtomicRMWInst>(&i)) put(s->getPointerOperand());
            else if (auto* s = dyn_cast<AtomicCmpXchgInst>(&i)) put(s->getPointerOperand());
            else if (auto* s = dyn_cast<MemIntrinsic>(&i)) put(s->getDest());
            else if (isa<ResumeInst>(&i)) printf("U %s %s\n", fn.c_str(), at(i).c_str());
            else if (isa<DbgInfoIntrinsic>(&i)) continue;
            else if (auto* c = dyn_cast<CallBase>(&i)) {
                auto* op = c->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(op)) op = al->getAliaseeObject();
                auto* g = dyn_cast<Function>(op);
                if (g && g->isIntrinsic()) continue;
                std::string gn = g ? g->getName().str() : (c->isInlineAsm() ? "<asm>" : "<indirect>");
                char k = '-';
                if (auto* v = dyn_cast<InvokeInst>(c)) k = pad(v);
                if (c->doesNotThrow()) k = 'N';
                printf("C %s %s %c %s\n", fn.c_str(), gn.c_str(), k, at(i).c_str());
                for (unsigned n = 0; n < c->arg_size(); n++) {
                    auto* a = c->getArgOperand(n);
                    if (!a->getType()->isPointerTy()) continue;
                    std::set<std::string> r; std::set<const Value*> seen;
                    roots(a, r, seen);
                    for (auto& x : r) if (x != "l") printf("P %s %s %u %s %s %c\n", fn.c_str(), gn.c_str(), n, x.c_str(), at(i).c_str(), c->onlyReadsMemory(n) || c->onlyReadsMemory() ? 'r' : x[0] == 'g' ? guarded(i, dt) : '-');
                }
            }
        }
    }
}
