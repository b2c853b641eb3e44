// Effects of every function of a set of LLVM modules: which record fields and globals it may write (directly or through
// callees it hands addresses to), and whom it calls. Flow-insensitive points-from analysis with per-function summaries.
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <array>
#include <map>
#include <set>
using namespace llvm;
// where an address comes from: parameter, field of a record type, global or local object; deep = reached through a pointer stored there
struct Org { char k; const void *p; unsigned i; bool deep; bool operator<(const Org &o) const { return std::tie(k, p, i, deep) < std::tie(o.k, o.p, o.i, o.deep); } };
typedef std::set<Org> Orgs;
struct Sum { std::set<std::pair<unsigned, bool>> writes, ret, reads; std::set<std::tuple<unsigned, unsigned, bool>> flows; bool operator==(const Sum &o) const { return writes == o.writes && ret == o.ret && flows == o.flows && reads == o.reads; } };
static std::map<const Function *, Sum> sums;
// units stay separate modules (the linker would merge record types of the same shape): a symbol means its first definition
static std::map<std::string, const Function *> defs;
static const Function *canon(const Function *f) { if (f->hasLocalLinkage()) return f; auto it = defs.find(f->getName().str()); return it == defs.end() ? f : it->second; }
struct Fact { std::string s, f, loc; };
struct Res { std::map<std::pair<std::string, std::string>, std::string> writes; std::map<const Function *, std::string> calls; std::map<std::string, std::string> ptrint; std::map<std::string, std::string> gw; std::set<std::pair<std::string, std::string>> touch, reads; std::vector<std::array<std::string, 4>> order; std::set<std::array<std::string, 3>> wl; std::set<std::array<std::string, 2>> undef; std::set<std::array<std::string, 3>> stat; std::set<std::array<std::string, 2>> zeroed, raw; };
static std::map<const Function *, Res> res;
static std::map<unsigned, std::set<const Function *>> slots;
static std::string full(StringRef dir, StringRef file) { return file.starts_with("/") || dir.empty() ? file.str() : (dir + "/" + file).str(); }
static std::string loc(const Instruction &I) { if (const DILocation *L = I.getDebugLoc().get()) return (full(L->getDirectory(), L->getFilename()) + Twine(":") + Twine(L->getLine()) + ":" + Twine(L->getColumn())).str(); return ""; }
static std::string typeName(StructType *S) { std::string n = S->hasName() ? S->getName().str() : "?"; size_t d = n.rfind('.'); if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d); for (const char *p : {"class.", "struct.", "union."}) if (n.rfind(p, 0) == 0) n = n.substr(strlen(p)); return n; }
static std::map<std::string, const DICompositeType *> recs; static std::map<std::pair<std::string, unsigned>, std::string> fcache;
static const DataLayout *DL;
static std::string fieldName(StructType *S, unsigned f) {
  std::string n = typeName(S); auto key = std::make_pair(n, f); auto it = fcache.find(key); if (it != fcache.end()) return it->second; std::string r = "#" + std::to_string(f);
  auto d = recs.find(n); if (d != recs.end() && !S->isOpaque() && f < S->getNumElements()) { uint64_t off = DL->getStructLayout(S)->getElementOffset(f) * 8; for (auto *e : d->second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember() && m->getOffsetInBits() == off && !(m->getName().empty())) { r = m->getName().str(); break; } }
  return fcache[key] = r;
}
static std::set<std::string> statRecs, traced;
static bool vslot(const CallBase &C, unsigned &slot) {
  auto *L = dyn_cast<LoadInst>(C.getCalledOperand()); if (!L) return false; const Value *p = L->getPointerOperand(); slot = 0;
  if (auto *G = dyn_cast<GetElementPtrInst>(p)) { if (G->getNumIndices() != 1) return false; auto *c = dyn_cast<ConstantInt>(G->getOperand(1)); if (!c || !G->getSourceElementType()->isPointerTy()) return false; slot = c->getZExtValue(); p = G->getPointerOperand(); }
  return isa<LoadInst>(p);
}
static std::string qual(const Function &F);
struct An {
  const Function &F; Res &R; Sum S; std::map<const Value *, Orgs> og; std::map<const void *, Orgs> content; bool changed = true;
  An(const Function &f, Res &r) : F(f), R(r) {}
  void constOrg(const Value *v, Orgs &o) { if (auto *G = dyn_cast<GlobalVariable>(v)) o.insert({'G', G, 0, false}); else if (auto *E = dyn_cast<ConstantExpr>(v)) { if (auto *gp = dyn_cast<GEPOperator>(E)) gep(gp, o); else for (auto &x : E->operands()) constOrg(x, o); } }
  void gep(const GEPOperator *G, Orgs &o) { Orgs b = get(G->getPointerOperand()); o.insert(b.begin(), b.end()); for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) if (StructType *ST = gi.getStructTypeOrNull()) { unsigned i = (unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue(); o.insert({'F', ST, i, false}); R.touch.insert({typeName(ST), fieldName(ST, i)}); } }
  Orgs get(const Value *v) { if (isa<Constant>(v)) { Orgs o; constOrg(v, o); return o; } return og[v]; }
  void put(const Value *v, const Orgs &o) { auto &x = og[v]; size_t n = x.size(); x.insert(o.begin(), o.end()); if (x.size() != n) changed = true; }
  Orgs deref(const Orgs &o) { Orgs r; for (auto &x : o) { if (x.k == 'L' && !x.deep) { auto &c = content[x.p]; r.insert(c.begin(), c.end()); } else { Org y = x; y.deep = true; r.insert(y); } } return r; }
  void write(const Orgs &o, const Instruction &I) { bool loc0 = false, other = false; for (auto &x : o) { if (x.k == 'L' && !x.deep) loc0 = true; else if (x.k != 'F' || x.deep) other = true; } if (loc0 && !other) return; for (auto &x : o) { if (x.k == 'F') { auto *ST = (StructType *)x.p; R.writes.emplace(std::make_pair(typeName(ST), fieldName(ST, x.i)), loc(I)); R.wl.insert({typeName(ST), fieldName(ST, x.i), loc(I)}); } else if (x.k == 'P') { if (S.writes.insert({x.i, x.deep}).second) changed = true; } else if (x.k == 'G') if (!((const GlobalVariable *)x.p)->isConstant()) { std::string n = ((const GlobalVariable *)x.p)->getName().str(); R.gw.emplace(n, loc(I)); R.wl.insert({"global", demangle(n), loc(I)}); } } }
  void read(const Orgs &o, const Instruction &I) { bool loc0 = false, other = false; for (auto &x : o) { if (x.k == 'L' && !x.deep) loc0 = true; else if (x.k != 'F' || x.deep) other = true; } if (loc0 && !other) return; for (auto &x : o) { if (x.k == 'F') R.reads.insert({typeName((StructType *)x.p), fieldName((StructType *)x.p, x.i)}); else if (x.k == 'P') if (S.reads.insert({x.i, x.deep}).second) changed = true; } }
  void into(const Orgs &dst, const Orgs &val) { for (auto &d : dst) { if (d.k == 'L' && !d.deep) { auto &c = content[d.p]; size_t n = c.size(); c.insert(val.begin(), val.end()); if (c.size() != n) changed = true; } else if (d.k == 'P') for (auto &v : val) if (v.k == 'P') if (S.flows.insert(std::make_tuple(d.i, v.i, v.deep)).second) changed = true; } }
  void call(const CallBase &C) {
    std::set<const Function *> tg; unsigned sl; if (auto *f = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts())) tg.insert(f); else if (auto *ga = dyn_cast<GlobalAlias>(C.getCalledOperand())) { if (auto *f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts())) tg.insert(f); } else if (vslot(C, sl)) tg = slots[sl];
    { std::set<const Function *> t2; for (auto *f : tg) t2.insert(canon(f)); tg.swap(t2); }
    if (tg.size() == 1 && C.arg_size() && !isa<Argument>(C.getArgOperand(0)) && (isa<CallBase>(C.getArgOperand(0)) || isa<AllocaInst>(C.getArgOperand(0)))) { std::string q = qual(**tg.begin()); size_t c = q.rfind("::"); if (c != std::string::npos) { std::string k = q.substr(0, c), b = q.substr(c + 2), last = k.substr(k.rfind("::") == std::string::npos ? 0 : k.rfind("::") + 2); if (b == last) { bool z = false; for (auto *u : C.getArgOperand(0)->users()) if (auto *ms = dyn_cast<MemSetInst>(u)) if (ms->getRawDest() == C.getArgOperand(0)) z = true; (z ? R.zeroed : R.raw).insert({k, loc(C)}); } } }
    for (auto *f : tg) {
      if (f->isIntrinsic()) { if (auto *M = dyn_cast<MemIntrinsic>(&C)) { write(get(M->getRawDest()), C); if (auto *T = dyn_cast<MemTransferInst>(&C)) read(get(T->getRawSource()), C), into(get(M->getRawDest()), deref(get(T->getRawSource()))); } continue; }
      if (tg.size() == 1 || f->arg_size() == C.arg_size()) R.calls.emplace(f, loc(C));
      if (f->isDeclaration()) { StringRef n = f->getName(); if (n == "memcpy" || n == "memset" || n == "memmove" || n == "fread" || n == "sprintf" || n == "snprintf" || n == "gzread" || n == "strcpy") write(get(C.getArgOperand(0)), C); if (C.getType()->isPointerTy() && (n == "memcpy" || n == "memset" || n == "memmove")) put(&C, get(C.getArgOperand(0))); continue; }
      const Sum s = sums[f];
      for (auto &w : s.writes) if (w.first < C.arg_size()) { Orgs a = get(C.getArgOperand(w.first)); write(w.second ? deref(a) : a, C); }
      for (auto &w : s.reads) if (w.first < C.arg_size()) { Orgs a = get(C.getArgOperand(w.first)); read(w.second ? deref(a) : a, C); }
      for (auto &w : s.ret) if (w.first < C.arg_size()) { Orgs a = get(C.getArgOperand(w.first)); put(&C, w.second ? deref(a) : a); }
      for (auto &w : s.flows) { unsigned d, v; bool dp; std::tie(d, v, dp) = w; if (d < C.arg_size() && v < C.arg_size()) { Orgs a = get(C.getArgOperand(v)); into(get(C.getArgOperand(d)), dp ? deref(a) : a); } }
    }
  }
  bool isStat(const Orgs &o, std::string &n) { for (auto &x : o) if (x.k == 'F' && statRecs.count(typeName((StructType *)x.p))) { n = typeName((StructType *)x.p) + "." + fieldName((StructType *)x.p, x.i); return true; } return false; }
  // a branch on a statistic: what it controls may only update statistics, local variables or print
  void decides(const Instruction &I, const std::string &via) {
    if (!pdt) { pdt.reset(new PostDominatorTree(const_cast<Function &>(F))); }
    auto *n0 = pdt->getNode(const_cast<BasicBlock *>(I.getParent())); const BasicBlock *join = n0 && n0->getIDom() ? n0->getIDom()->getBlock() : nullptr; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> q;
    for (unsigned i = 0; i < I.getNumSuccessors(); i++) if (I.getSuccessor(i) != join) q.push_back(I.getSuccessor(i));
    while (!q.empty()) { auto *b = q.back(); q.pop_back(); if (!seen.insert(b).second) continue; for (auto *s : successors(b)) if (s != join) q.push_back(s); }
    std::string n; for (auto *b : seen) for (auto &X : *b) {
      if (auto *T = dyn_cast<StoreInst>(&X)) { Orgs a = get(T->getPointerOperand()); bool local = true; for (auto &x : a) if (x.k != 'L') local = false; if (!local && !isStat(a, n)) R.stat.insert({loc(X), via, "decides whether this is written"}); }
      else if (auto *C = dyn_cast<CallBase>(&X)) { const Function *f = C->getCalledFunction(); if (f) f = canon(f); if (!f || f->isIntrinsic() || f->isDeclaration()) continue; for (auto &w : sums[f].writes) { Orgs a = get(C->getArgOperand(w.first)); if (w.second) a = deref(a); bool local = true; for (auto &x : a) if (x.k != 'L') local = false; if (!local && !isStat(a, n)) R.stat.insert({loc(X), via, "decides whether this call is made"}); } }
    }
  }
  std::unique_ptr<PostDominatorTree> pdt;
  // calls, reads and writes of this function in program order
  void trace() {
    R.order.clear(); ReversePostOrderTraversal<const Function *> T(&F); auto ev = [&](const char *k, const Orgs &o, const Instruction &I) { for (auto &x : o) if (x.k == 'F') R.order.push_back({k, typeName((StructType *)x.p), fieldName((StructType *)x.p, x.i), loc(I)}); };
    for (auto *B : T) for (auto &I : *B) { if (auto *L = dyn_cast<LoadInst>(&I)) ev("r", get(L->getPointerOperand()), I); else if (auto *W = dyn_cast<StoreInst>(&I)) ev("w", get(W->getPointerOperand()), I); else if (auto *M = dyn_cast<MemTransferInst>(&I)) ev("r", get(M->getRawSource()), I), ev("w", get(M->getRawDest()), I); else if (auto *M = dyn_cast<MemSetInst>(&I)) ev("w", get(M->getRawDest()), I); else if (auto *C = dyn_cast<CallBase>(&I)) { if (const Function *f = C->getCalledFunction()) if (!f->isIntrinsic()) { f = canon(f); if (!f->isDeclaration()) for (auto &w : sums[f].reads) if (w.first < C->arg_size()) { Orgs a = get(C->getArgOperand(w.first)); ev("r", w.second ? deref(a) : a, I); } R.order.push_back({"c", f->getName().str(), "", loc(I)}); if (!f->isDeclaration()) for (auto &w : sums[f].writes) if (w.first < C->arg_size()) { Orgs a = get(C->getArgOperand(w.first)); ev("w", w.second ? deref(a) : a, I); } } } }
  }
  // where values read from statistics records go, other than back into statistics
  void stats() {
    std::map<const Value *, std::string> t; bool ch = true; std::string n;
    while (ch) { ch = false; for (auto &I : instructions(F)) {
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isPointerTy() && isStat(get(L->getPointerOperand()), n) && t.emplace(&I, n).second) ch = true; continue; }
      std::string via; for (auto &u : I.operands()) { auto it = t.find(u.get()); if (it != t.end()) via = it->second; } if (via.empty()) continue;
      if (auto *S0 = dyn_cast<StoreInst>(&I)) { if (t.count(S0->getValueOperand())) { Orgs a = get(S0->getPointerOperand()); bool local = true; for (auto &x : a) if (x.k != 'L') local = false; if (!isStat(a, n) && !local) R.stat.insert({loc(I), via, "stored"}); } }
      else if (auto *C = dyn_cast<CallBase>(&I)) { const Function *f = C->getCalledFunction(); if (f) f = canon(f); if (f && (f->isIntrinsic() || f->isDeclaration())) { if (!I.getType()->isVoidTy() && f->isIntrinsic() && t.emplace(&I, via).second) ch = true; } else R.stat.insert({loc(I), via, "passed to " + (f ? demangle(f->getName().str()) : std::string("?"))}); }
      else if (isa<BranchInst>(I) || isa<SwitchInst>(I)) decides(I, via);
      else if (isa<ReturnInst>(I)) continue;
      else if (t.emplace(&I, via).second) ch = true; } }
  }
  void run() {
    for (auto &A : F.args()) if (A.getType()->isPointerTy()) og[&A].insert({'P', &F, A.getArgNo(), false});
    while (changed) {
      changed = false;
      for (auto &I : instructions(F)) {
        if (auto *A = dyn_cast<AllocaInst>(&I)) put(&I, Orgs{{'L', A, 0, false}});
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { Orgs o; gep(cast<GEPOperator>(G), o); put(&I, o); }
        else if (auto *L = dyn_cast<LoadInst>(&I)) { read(get(L->getPointerOperand()), I); if (L->getType()->isPointerTy() || L->getType()->isAggregateType()) put(&I, deref(get(L->getPointerOperand()))); }
        else if (auto *T = dyn_cast<StoreInst>(&I)) { Orgs a = get(T->getPointerOperand()); write(a, I); if (T->getValueOperand()->getType()->isPointerTy() || T->getValueOperand()->getType()->isAggregateType()) into(a, get(T->getValueOperand())); }
        else if (auto *C = dyn_cast<CallBase>(&I)) call(*C);
        else if (auto *R0 = dyn_cast<ReturnInst>(&I)) { if (R0->getReturnValue()) for (auto &x : get(R0->getReturnValue())) if (x.k == 'P') if (S.ret.insert({x.i, x.deep}).second) changed = true; }
        else if (auto *X = dyn_cast<AtomicRMWInst>(&I)) write(get(X->getPointerOperand()), I);
        else if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I)) { Orgs o; for (auto &x : I.operands()) if (!isa<BasicBlock>(x)) { Orgs y = get(x); o.insert(y.begin(), y.end()); } if (I.getType()->isPointerTy() || I.getType()->isAggregateType()) put(&I, o); }
        if (!isa<PHINode>(I) && !isa<InsertValueInst>(I) && !isa<DbgInfoIntrinsic>(I)) for (auto &u : I.operands()) if (isa<UndefValue>(u) && !isa<PoisonValue>(u)) R.undef.insert({loc(I), I.getOpcodeName()});
        if (isa<PtrToIntInst>(I)) { bool only = true; for (auto *U : I.users()) { auto *B = dyn_cast<BinaryOperator>(U); if (!B || B->getOpcode() != Instruction::Sub) only = false; } if (!only) R.ptrint.emplace(loc(I), ""); }
      }
    }
  }
};
// a library function does not write through a reference or pointer to const
static void dropConst(const Function &F, Sum &s) {
  auto *P = F.getSubprogram(); if (!P || !StringRef(full(P->getDirectory(), P->getFilename())).starts_with("/usr") || !P->getType()) return; auto ts = P->getType()->getTypeArray(); unsigned off = F.arg_size() && (F.hasParamAttribute(0, Attribute::StructRet) || (F.arg_size() > 1 && F.hasParamAttribute(1, Attribute::StructRet)));
  if (ts.size() != F.arg_size() - off + 1) return;
  auto konst = [](const DIType *t) { while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_pointer_type) { auto *b = dyn_cast_or_null<DIDerivedType>(d->getBaseType()); return b && b->getTag() == dwarf::DW_TAG_const_type; } if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_const_type) return false; t = d->getBaseType(); } return false; };
  for (auto it = s.writes.begin(); it != s.writes.end();) if (it->first >= off && it->first - off + 1 < ts.size() && konst(ts[it->first - off + 1])) it = s.writes.erase(it); else ++it;
}
static std::string qual(const Function &F) {
  if (auto *P = F.getSubprogram()) { std::string n = P->getName().str(); const DIScope *s = P->getScope(); if (auto *D = P->getDeclaration()) s = D->getScope(); while (s && isa<DILexicalBlockBase>(s)) s = s->getScope(); for (; s && (isa<DICompositeType>(s) || isa<DINamespace>(s)); s = s->getScope()) if (!s->getName().empty()) n = s->getName().str() + "::" + n; return n; }
  return demangle(F.getName().str());
}
int main(int argc, char **argv) {
  LLVMContext ctx; std::vector<std::unique_ptr<Module>> Ms; std::vector<Function *> all; std::string out; std::set<std::string> locals;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; if (a == "--out") { out = argv[++i]; continue; } if (a == "--stats") { statRecs.insert(argv[++i]); continue; } if (a == "--trace") { traced.insert(argv[++i]); continue; }
    SMDiagnostic e; auto m = parseIRFile(a, e, ctx); if (!m) { errs() << "cannot read " << a << "\n"; return 2; } Ms.push_back(std::move(m));
  }
  if (Ms.empty()) { errs() << "no unit\n"; return 2; }
  for (auto &m : Ms) for (auto &f : *m) if (!f.isDeclaration()) { if (f.hasLocalLinkage()) { std::string n = f.getName().str(); for (unsigned k = 1; !locals.insert(f.getName().str()).second; k++) f.setName(n + ".u" + std::to_string(k)); all.push_back(&f); } else if (defs.emplace(f.getName().str(), &f).second) all.push_back(&f); }
  DL = &Ms[0]->getDataLayout();
  { FunctionAnalysisManager FAM; PassBuilder PB; PB.registerFunctionAnalyses(FAM); FunctionPassManager P; P.addPass(PromotePass()); for (auto *F : all) P.run(*F, FAM); }
  DebugInfoFinder DF; for (auto &m : Ms) DF.processModule(*m);
  auto rq = [](const DICompositeType *t) { std::string n = t->getName().str(); for (const DIScope *s = t->getScope(); s && (isa<DICompositeType>(s) || isa<DINamespace>(s)); s = s->getScope()) n = (s->getName().empty() ? std::string("(anonymous namespace)") : s->getName().str()) + "::" + n; return n; };
  for (auto *t : DF.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if ((c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) && !c->isForwardDecl()) recs[rq(c)] = c;
  for (auto &m : Ms) for (auto &G : m->globals()) if (G.getName().starts_with("_ZTV") && G.hasInitializer()) { auto *c = G.getInitializer(); for (auto &arr : c->operands()) if (auto *A = dyn_cast<ConstantArray>(arr)) for (unsigned i = 2; i < A->getNumOperands(); i++) if (auto *f = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts())) slots[i - 2].insert(canon(f)); }
  for (int round = 0; round < 40; round++) { bool ch = false; for (auto *f : all) { Function &F = *f; An a(F, res[&F]); a.S = sums[&F]; a.run(); a.stats(); if (traced.count(qual(F).substr(0, qual(F).find("::")))) a.trace(); dropConst(F, a.S); if (!(a.S == sums[&F])) { sums[&F] = a.S; ch = true; } } if (!ch) break; if (round == 39) { errs() << "no fixpoint\n"; return 2; } }
  json::Object J; json::Array fs;
  for (auto &p : res) {
    const Function *F = p.first; json::Object o; o["name"] = qual(*F); o["sym"] = F->getName().str(); auto *P = F->getSubprogram(); o["file"] = P ? full(P->getDirectory(), P->getFilename()) : std::string(); o["line"] = P ? (int64_t)P->getLine() : 0;
    json::Array w; for (auto &x : p.second.writes) w.push_back(json::Array{x.first.first, x.first.second, x.second}); o["writes"] = std::move(w);
    json::Array c; for (auto &x : p.second.calls) c.push_back(json::Array{x.first->getName().str(), x.second}); o["calls"] = std::move(c);
    json::Array g; for (auto &x : p.second.gw) g.push_back(json::Array{x.first, x.second}); o["globals"] = std::move(g);
    json::Array t; for (auto &x : p.second.touch) t.push_back(json::Array{x.first, x.second}); o["touches"] = std::move(t);
    json::Array rd; for (auto &x : p.second.reads) rd.push_back(json::Array{x.first, x.second}); o["reads"] = std::move(rd);
    if (!p.second.order.empty()) { json::Array od; for (auto &x : p.second.order) od.push_back(json::Array{x[0], x[1], x[2], x[3]}); o["order"] = std::move(od); }
    json::Array wl; for (auto &x : p.second.wl) wl.push_back(json::Array{x[0], x[1], x[2]}); o["write_sites"] = std::move(wl);
    json::Array ud; for (auto &x : p.second.undef) ud.push_back(json::Array{x[0], x[1]}); o["unassigned"] = std::move(ud);
    json::Array st; for (auto &x : p.second.stat) st.push_back(json::Array{x[0], x[1], x[2]}); o["stat_uses"] = std::move(st);
    json::Array zr; for (auto &x : p.second.zeroed) zr.push_back(json::Array{x[0], x[1], 1}); for (auto &x : p.second.raw) zr.push_back(json::Array{x[0], x[1], 0}); o["constructs"] = std::move(zr);
    json::Array q; for (auto &x : p.second.ptrint) q.push_back(x.first); o["addr_as_int"] = std::move(q);
    fs.push_back(std::move(o));
  }
  J["functions"] = std::move(fs); json::Object rs; for (auto &p : recs) { json::Array a; for (auto *e : p.second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) a.push_back(m->getName().str()); rs[p.first] = std::move(a); } J["records"] = std::move(rs);
  std::error_code ec; raw_fd_ostream os(out, ec); os << json::Value(std::move(J)); return 0;
}
