// Abstract interpreter over LLVM IR: evaluates a function on guarded symbolic
// states, merging at every control-flow join.
#pragma once
#include "mem.h"
#include "decide.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/DenseMap.h"
#include <memory>
#include <set>
#include <sstream>
using namespace llvm;

struct Broken : std::runtime_error { Broken(const std::string &s) : std::runtime_error(s) {} };

struct Val {
  N n = NONE;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(N x) : n(x) {}
};

struct State { Mem mem; N guard; bool dead = false; };

struct Obligation {
  N guard, lhs, rhs;
  std::string msg, where; // where: harness source position
  std::string stack;
  uint32_t prov = 0;
  int kind = 0; // 0 property, 1 ub, 2 exit
};

struct FnInfo {
  DenseMap<const Value *, unsigned> num;
  unsigned nvals = 0;
  struct BI { std::vector<unsigned> path; /* [posL1,posL2,...,posB] */ std::vector<const BasicBlock *> headers; };
  DenseMap<const BasicBlock *, BI> bi;
  std::vector<const PHINode *> dummy;
};

struct Prov { const Instruction *I; N cond; uint32_t a, b; };

struct Interp {
  Module &M; const DataLayout &DL; Terms t;
  std::vector<Obj> objs;
  std::map<uint64_t, uint32_t> pageToObj; // basePage -> obj
  uint64_t nextPage = 1;
  DenseMap<const GlobalValue *, uint32_t> gobj;
  DenseMap<const Constant *, N> ccache;
  DenseMap<const Function *, FnInfo *> finfo;
  std::vector<Obligation> obls;
  std::vector<Prov> provs;
  DenseMap<const Instruction *, uint32_t> provOf;
  std::map<std::tuple<N, uint32_t, uint32_t>, uint32_t> provIte;
  std::map<std::string, int> wireW;
  // statistics
  uint64_t nInstr = 0, nCalls = 0, nForks = 0, nMerges = 0, nDeref = 0, nUbSites = 0, nUbTrivial = 0;
  std::set<const Function *> entered;
  std::map<std::string, unsigned> externals;
  std::map<std::string, unsigned> exits;
  std::map<std::string, uint64_t> notes;
  bool ub = false, ubOnly = false, noexit = false; int quietUB = 0; std::map<std::string, int64_t> ubSeen; // sites per memory-safety rule
  unsigned loopLimit = 4000, callDepth = 0, undecidedLimit = 600;
  std::vector<const Instruction *> callStack;
  std::string entryName;
  bool trace = false;
  const Instruction *curI = nullptr;

  Interp(Module &m) : M(m), DL(m.getDataLayout()) { provs.push_back({nullptr, NONE, 0, 0}); objs.push_back(Obj()); objs[0].name = "null"; objs[0].dead = true; }

  [[noreturn]] void fail(const std::string &s) { throw Broken(s + " at " + locStr(curI) + " [" + stackStr() + "]"); }

  static std::string fnName(const Function *F) {
    if (auto *SP = F->getSubprogram()) { std::string s = SP->getName().str(); if (auto *sc = dyn_cast_or_null<DIType>(SP->getScope())) s = sc->getName().str() + "::" + s; return s; }
    return demangle(F->getName().str());
  }
  static std::string locStr(const Instruction *I) {
    if (!I) return "?";
    std::string s;
    if (const DILocation *L = I->getDebugLoc().get()) { s = L->getFilename().str(); if (s.empty() || s[0] != '/') { auto d = L->getDirectory().str(); if (!d.empty()) s = d + "/" + s; } s += ":" + std::to_string(L->getLine()); }
    else s = "?";
    return s + " in " + fnName(I->getFunction());
  }
  std::string stackStr() { std::string s; for (size_t i = callStack.size(); i-- > 0;) { if (!s.empty()) s += " < "; s += fnName(callStack[i]->getFunction()); if (s.size() > 300) break; } return s; }

  uint32_t provFor(const Instruction *I) { if (!I) return 0; auto it = provOf.find(I); if (it != provOf.end()) return it->second; provs.push_back({I, NONE, 0, 0}); return provOf[I] = provs.size() - 1; }
  uint32_t provMerge(N c, uint32_t a, uint32_t b) {
    if (a == b) return a; auto k = std::make_tuple(c, a, b); auto it = provIte.find(k); if (it != provIte.end()) return it->second;
    provs.push_back({nullptr, c, a, b}); return provIte[k] = provs.size() - 1; }

  // ------------------------------------------------------------ objects
  uint32_t newObj(const std::string &name, uint64_t size, int def) {
    Obj o; o.name = name; o.size = size; o.def = def; o.npages = (size + PGB - 1) / PGB; if (!o.npages) o.npages = 1; o.basePage = nextPage; nextPage += o.npages;
    if (nextPage >= (1ull << 25)) fail("object space exhausted (" + name + ")");
    uint32_t id = objs.size(); objs.push_back(o); pageToObj[o.basePage] = id; return id;
  }
  uint32_t objOfPage(uint64_t pg) { auto it = pageToObj.upper_bound(pg); --it; return it->second; }
  uint32_t globalObj(const GlobalValue *G) {
    auto it = gobj.find(G); if (it != gobj.end()) return it->second;
    uint32_t id;
    if (auto *F = dyn_cast<Function>(G)) { id = newObj("fn:" + F->getName().str(), 1, 0); objs[id].fn = F; }
    else if (auto *V = dyn_cast<GlobalVariable>(G)) {
      uint64_t sz = DL.getTypeAllocSize(V->getValueType());
      std::string nm = V->getName().str();
      id = newObj(nm, sz, 1); objs[id].gv = V;
      if (V->hasInitializer() && !isa<ConstantAggregateZero>(V->getInitializer()) && !V->getInitializer()->isNullValue()) objs[id].def = 2;
      if (!V->hasInitializer()) objs[id].def = 0;
    } else if (auto *A = dyn_cast<GlobalAlias>(G)) { id = globalObj(cast<GlobalValue>(A->getAliasee()->stripPointerCasts())); }
    else fail("global kind");
    gobj[G] = id; return id;
  }
  void buildImage(uint32_t id) {
    if (objs[id].imgBuilt) return; objs[id].imgBuilt = true;
    std::vector<ByteRef> img(objs[id].size, ByteRef{t.mkC(8, 0), 0, 0});
    fillConst(objs[id].gv->getInitializer(), img, 0);
    objs[id].image = std::move(img);
  }
  void putN(std::vector<ByteRef> &img, uint64_t off, N v, unsigned bytes) { for (unsigned i = 0; i < bytes; i++) img[off + i] = ByteRef{v, 0, (uint8_t)i}; }
  void fillConst(const Constant *C, std::vector<ByteRef> &img, uint64_t off) {
    Type *Ty = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *SL = DL.getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) fillConst(S->getOperand(i), img, off + SL->getElementOffset(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) fillConst(A->getOperand(i), img, off + i * es); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL.getTypeAllocSize(D->getElementType()); for (unsigned i = 0; i < D->getNumElements(); i++) fillConst(D->getElementAsConstant(i), img, off + i * es); return; }
    if (auto *V = dyn_cast<ConstantVector>(C)) { uint64_t es = DL.getTypeAllocSize(V->getType()->getElementType()); for (unsigned i = 0; i < V->getNumOperands(); i++) fillConst(V->getOperand(i), img, off + i * es); return; }
    N v = constN(C); unsigned b = DL.getTypeStoreSize(Ty); if (t.W(v) < b * 8) v = t.mkZext(v, b * 8); putN(img, off, v, b);
  }
  unsigned widthOf(Type *Ty) {
    if (Ty->isIntegerTy()) return Ty->getIntegerBitWidth();
    if (Ty->isPointerTy()) return 64;
    if (Ty->isFloatTy()) return 32;
    if (Ty->isDoubleTy()) return 64;
    if (Ty->isX86_FP80Ty()) return 80;
    fail("type width");
  }
  N constN(const Constant *C) {
    auto it = ccache.find(C); if (it != ccache.end()) return it->second;
    N r;
    if (auto *I = dyn_cast<ConstantInt>(C)) { const APInt &v = I->getValue(); if (v.getBitWidth() > 128) fail("wide constant"); u128 x = v.getRawData()[0]; if (v.getBitWidth() > 64) x |= (u128)v.getRawData()[1] << 64; r = t.mkC(v.getBitWidth(), x); }
    else if (isa<ConstantPointerNull>(C)) r = t.mkC(64, 0);
    else if (auto *Fp = dyn_cast<ConstantFP>(C)) { APInt v = Fp->getValueAPF().bitcastToAPInt(); u128 x = v.getRawData()[0]; if (v.getBitWidth() > 64) x |= (u128)v.getRawData()[1] << 64; r = t.mkC(v.getBitWidth(), x); }
    else if (isa<UndefValue>(C)) r = t.mkC(widthOf(C->getType()), 0);
    else if (isa<ConstantAggregateZero>(C)) fail("agg zero scalar");
    else if (auto *G = dyn_cast<GlobalValue>(C)) r = t.ptrObj(globalObj(G));
    else if (auto *E = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(E)) {
        N b = constN(cast<Constant>(GEP->getPointerOperand())); APInt off(64, 0); if (!GEP->accumulateConstantOffset(DL, off)) fail("const gep"); r = t.mkAdd(b, t.mkC(64, off.getZExtValue()));
      } else switch (E->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc: r = t.mkZext(constN(E->getOperand(0)), widthOf(E->getType())); break;
        case Instruction::Add: r = t.mkAdd(constN(E->getOperand(0)), constN(E->getOperand(1))); break;
        case Instruction::Sub: r = t.mkSub(constN(E->getOperand(0)), constN(E->getOperand(1))); break;
        case Instruction::ICmp: r = icmp((CmpInst::Predicate)E->getPredicate(), constN(E->getOperand(0)), constN(E->getOperand(1))); break;
        default: fail("constexpr");
      }
    } else fail("constant kind");
    ccache[C] = r; return r;
  }
  Val constV(const Constant *C) {
    Type *Ty = C->getType();
    if (Ty->isStructTy() || Ty->isArrayTy() || Ty->isVectorTy()) {
      Val v; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = Ty->isStructTy() ? Ty->getStructNumElements() : Ty->isArrayTy() ? Ty->getArrayNumElements() : cast<FixedVectorType>(Ty)->getNumElements();
      for (unsigned i = 0; i < n; i++) v.agg->push_back(constV(C->getAggregateElement(i)));
      return v;
    }
    return Val(constN(C));
  }
  Val undefV(Type *Ty) {
    if (Ty->isVoidTy()) return Val();
    return constV(UndefValue::get(Ty));
  }
  Val freshV(Type *Ty, const std::string &nm, int kind) {
    if (Ty->isVoidTy()) return Val();
    if (Ty->isStructTy()) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < Ty->getStructNumElements(); i++) v.agg->push_back(freshV(Ty->getStructElementType(i), nm + "." + std::to_string(i), kind)); return v; }
    if (Ty->isArrayTy()) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < Ty->getArrayNumElements(); i++) v.agg->push_back(freshV(Ty->getArrayElementType(), nm + "." + std::to_string(i), kind)); return v; }
    return Val(t.leaf(nm, widthOf(Ty), kind));
  }

  // ------------------------------------------------------------ bytes
  ByteRef defByte(uint32_t o, uint64_t off) {
    Obj &ob = objs[o];
    if (ob.def == 1) return ByteRef{t.mkC(8, 0), 0, 0};
    if (ob.def == 2) { buildImage(o); return objs[o].image[off]; }
    return ByteRef{t.leaf("uninit:" + ob.name + "+" + std::to_string(off), 8, 1), 0, 0};
  }
  ByteRef getByte(State &s, uint32_t o, uint64_t off) {
    const Page *p = s.mem.get(objs[o].basePage + off / PGB);
    if (p && p->b[off % PGB].n != NONE) return p->b[off % PGB];
    return defByte(o, off);
  }
  void putByte(State &s, uint32_t o, uint64_t off, ByteRef b) {
    void **sl = s.mem.slot(objs[o].basePage + off / PGB); Page *p = (Page *)*sl;
    if (!p) { p = new Page; p->rc = 1; for (auto &x : p->b) x.n = NONE; *sl = p; }
    else if (p->rc > 1) { Page *c = new Page(*p); c->rc = 1; p->rc--; *sl = c; p = c; }
    p->b[off % PGB] = b;
  }
  N bytesToN(const ByteRef *b, unsigned n) {
    if (n > 16) fail("wide access");
    std::vector<N> parts; unsigned i = 0;
    while (i < n) {
      unsigned j = i + 1; while (j < n && b[j].n == b[i].n && b[j].idx == b[i].idx + (j - i)) j++;
      unsigned w = t.W(b[i].n), lo = b[i].idx * 8u, need = (j - i) * 8; 
      if (lo + need > w) { // value narrower than its storage
        N x = t.mkZext(b[i].n, ((w + 7) / 8) * 8); parts.push_back(t.mkExtract(x, lo, need));
      } else parts.push_back(t.mkExtract(b[i].n, lo, need));
      i = j;
    }
    return parts.size() == 1 ? parts[0] : t.mkConcat(parts);
  }
  void mergeRuns(N c, const ByteRef *A, const ByteRef *B, ByteRef *out, unsigned n) {
    unsigned i = 0;
    auto same = [&](unsigned k) { return A[k].n == B[k].n && A[k].idx == B[k].idx; };
    while (i < n) {
      if (same(i)) { out[i] = A[i]; if (A[i].prov != B[i].prov) out[i].prov = A[i].prov ? A[i].prov : B[i].prov; i++; continue; }
      unsigned j = i + 1;
      while (j < n && j - i < 16 && !same(j) && A[j].n == A[i].n && A[j].idx == A[i].idx + (j - i) && B[j].n == B[i].n && B[j].idx == B[i].idx + (j - i)) j++;
      // constants on one side may be split bytewise; join them along the other side's run
      if (j == i + 1) {
        auto runlen = [&](const ByteRef *X) { unsigned k = i + 1; while (k < n && k - i < 16 && X[k].n == X[i].n && X[k].idx == X[i].idx + (k - i)) k++; return k; };
        unsigned ra = runlen(A), rb = runlen(B); unsigned L = std::max(ra, rb);
        bool oka = true, okb = true; for (unsigned k = i; k < L; k++) { if (!(ra >= L || t.isC(A[k].n))) oka = false; if (!(rb >= L || t.isC(B[k].n))) okb = false; }
        if (oka && okb && L > j) j = L;
      }
      N va = bytesToN(A + i, j - i), vb = bytesToN(B + i, j - i);
      N m = t.mkIte(c, va, vb);
      for (unsigned k = i; k < j; k++) { out[k].n = m; out[k].idx = k - i; out[k].prov = provMerge(c, A[k].prov, B[k].prov); }
      i = j;
    }
  }
  // ------------------------------------------------------------ pointers
  struct Tgt { N cond; uint32_t obj; N off; };
  void resolve(N p, N cond, N guard, std::vector<Tgt> &out, int depth = 0) {
    if (cond == t.F || t.decide(cond, guard) == 0) return;
    const Node x = t[p];
    if (depth > 200) fail("pointer too deep");
    switch (x.op) {
    case PTR: out.push_back({cond, (uint32_t)x.val, t.mkC(64, 0)}); return;
    case CONST: out.push_back({cond, 0, p}); return;
    case ITE: { N c = t.arg(p, 0), a = t.arg(p, 1), b = t.arg(p, 2); int d = t.decide(c, guard); if (d != 0) resolve(a, t.bAnd(cond, c), guard, out, depth + 1); if (d != 1) resolve(b, t.bAnd(cond, t.bNot(c)), guard, out, depth + 1); return; }
    case SUM: {
      N base = NONE; int nb = 0; 
      for (unsigned i = 0; i + 1 < x.na; i += 2) { N a = t.arg(p, i); if (t.isC(t.arg(p, i + 1), 1) && ptrLike(a)) { base = a; nb++; } }
      if (nb != 1) { out.push_back({cond, 0, p}); return; }
      N off = t.mkSub(p, base);
      std::vector<Tgt> bs; resolve(base, cond, guard, bs, depth + 1);
      for (auto &b : bs) out.push_back({b.cond, b.obj, t.mkAdd(b.off, off)});
      return; }
    default: out.push_back({cond, 0, p}); return;
    }
  }
  bool ptrLike(N a) {
    const Node &x = t[a];
    if (x.op == PTR) return true;
    if (x.op == SUM) { for (unsigned i = 0; i + 1 < x.na; i += 2) if (ptrLike(t.arg(a, i))) return true; return false; }
    if (x.op == ITE) return ptrLike(t.arg(a, 1)) || ptrLike(t.arg(a, 2));
    return false;
  }
  typedef std::vector<std::pair<u128, N>> VL; // value, condition
  bool enumVals(N x, N guard, VL &out, unsigned limit) {
    const Node nx = t[x];
    if (nx.op == CONST) { out.push_back({nx.val, t.T}); return true; }
    auto addv = [&](std::map<u128, N> &m, u128 v, N c) { if (c == t.F) return; auto it = m.find(v); if (it == m.end()) m[v] = c; else it->second = t.bOr(it->second, c); };
    std::map<u128, N> m; u128 Mk = maskOf(nx.w);
    switch (nx.op) {
    case BDD: { int d = t.decide(x, guard); if (d != 0) out.push_back({1, x}); if (d != 1) out.push_back({0, t.bNot(x)}); return true; }
    case ITE: {
      N c = t.arg(x, 0), a = t.arg(x, 1), b = t.arg(x, 2); int d = t.decide(c, guard); VL la, lb;
      if (d != 0) { if (!enumVals(a, guard, la, limit)) return false; for (auto &e : la) addv(m, e.first, t.bAnd(c, e.second)); }
      if (d != 1) { if (!enumVals(b, guard, lb, limit)) return false; N ncn = t.bNot(c); for (auto &e : lb) addv(m, e.first, t.bAnd(ncn, e.second)); }
      break; }
    case SUM: {
      std::vector<N> as; for (unsigned i = 0; i < nx.na; i++) as.push_back(t.arg(x, i));
      std::map<u128, N> cur; cur[t.cv(as.back())] = t.T;
      for (unsigned i = 0; i + 1 < as.size(); i += 2) {
        VL l; if (!enumVals(as[i], guard, l, limit)) { return rangeEnum(x, guard, out, limit); } u128 k = t.cv(as[i + 1]); std::map<u128, N> nxt;
        if (l.size() * cur.size() > limit * 4) return false;
        for (auto &p : cur) for (auto &e : l) addv(nxt, (p.first + e.first * k) & Mk, t.bAnd(p.second, e.second));
        cur.swap(nxt);
      }
      m.swap(cur); break; }
    case CONCAT: {
      std::vector<N> as; for (unsigned i = 0; i < nx.na; i++) as.push_back(t.arg(x, i));
      std::map<u128, N> cur; cur[0] = t.T; unsigned pos = 0;
      for (N a : as) { VL l; if (!enumVals(a, guard, l, limit)) return false; std::map<u128, N> nxt; if (l.size() * cur.size() > limit * 4) return false; for (auto &p : cur) for (auto &e : l) addv(nxt, p.first | (e.first << pos), t.bAnd(p.second, e.second)); cur.swap(nxt); pos += t.W(a); }
      m.swap(cur); break; }
    default: return rangeEnum(x, guard, out, limit);
    }
    for (auto &p : m) { if (guard != t.T && t.decide(p.second, guard) == 0) continue; out.push_back(p); }
    if (out.size() > limit) return false;
    return true;
  }
  bool rangeEnum(N x, N guard, VL &out, unsigned limit) {
    const Node nx = t[x]; u128 span = nx.hi - nx.lo; u128 unk = ~(nx.k0 | nx.k1) & maskOf(nx.w);
    if (span < limit) { for (u128 v = nx.lo;; v++) { if (!(v & nx.k0) && (v & nx.k1) == nx.k1) { N c = t.mkEq(x, t.mkC(nx.w, v)); if (c != t.F && (guard == t.T || t.decide(c, guard) != 0)) out.push_back({v, c}); } if (v == nx.hi) break; } return true; }
    unsigned nb = 0; for (u128 m = unk; m; m &= m - 1) nb++;
    if (nb <= 12 && (1u << nb) <= limit) { u128 s = 0; do { u128 v = s | nx.k1; N c = t.mkEq(x, t.mkC(nx.w, v)); if (c != t.F && t.decide(c, guard) != 0) out.push_back({v, c}); s = (s - unk) & unk; } while (s); return true; }
    return false;
  }
  void oblige(N guard, N cond, const std::string &msg, int kind) {
    if (cond == t.T) return;
    Obligation o; o.guard = guard; o.lhs = cond; o.rhs = t.T; o.msg = msg; o.where = locStr(curI); o.stack = stackStr(); o.kind = kind; obls.push_back(o);
  }
  struct Acc { N cond; uint32_t obj; uint64_t off; };
  // concrete accesses an n-byte access through p may make
  void accesses(State &s, N p, uint64_t n, std::vector<Acc> &out, bool &complete) {
    nDeref++;
    complete = true;
    if (t[p].op == PTR) { uint32_t o = (uint32_t)t[p].val; if (n <= objs[o].size && !objs[o].fn) { out.push_back({t.T, o, 0}); return; } }
    std::vector<Tgt> tg; resolve(p, t.T, s.guard, tg);
    N bad = t.F;
    for (auto &g : tg) {
      if (g.obj == 0) { bad = t.bOr(bad, g.cond); continue; }
      Obj &ob = objs[g.obj]; uint64_t size = ob.size;
      N off = g.off;
      if (t.isC(off)) { u128 v = t.cv(off); if (v + n <= size && !(v >> 63)) out.push_back({g.cond, g.obj, (uint64_t)v}); else bad = t.bOr(bad, g.cond); continue; }
      VL vl; N g2 = t.bAnd(s.guard, g.cond);
      if (!enumVals(off, g2, vl, 8192)) {
        // fall back: enumerate aligned in-bounds positions
        u128 k0 = t[off].k0; unsigned tz = ctz128(~k0); uint64_t step = 1ull << std::min(tz, 12u);
        if (size / step > 20000) fail("address range too large for " + ob.name + " off " + t.str(off, 5));
        N inb = t.F;
        for (uint64_t v = 0; v + n <= size; v += step) { N c = t.mkEq(off, t.mkC(64, v)); if (c == t.F) continue; N cc = t.bAnd(g.cond, c); if (cc == t.F || t.decide(cc, s.guard) == 0) continue; out.push_back({cc, g.obj, v}); inb = t.bOr(inb, cc); }
        bad = t.bOr(bad, t.bAnd(g.cond, t.bNot(inb)));
        continue;
      }
      for (auto &e : vl) { N cc = t.bAnd(g.cond, e.second); if (cc == t.F) continue; u128 v = e.first; if (v + n <= size && !(v >> 63)) out.push_back({cc, g.obj, (uint64_t)v}); else bad = t.bOr(bad, cc); }
    }
    if (ub) ubSeen["memory access stays inside the accessed object"]++;
    if (bad != t.F) {
      int d = t.decide(bad, s.guard);
      if (d != 0) { complete = false; if (ub && !quietUB) oblige(s.guard, t.bNot(bad), "memory access stays inside the accessed object", 1); else notes["possible-out-of-bounds"]++; if (d == 1 && out.empty()) { notes["certain-bad-access " + locStr(curI)]++; } }
      else if (ub) { nUbSites++; nUbTrivial++; }
    } else if (ub) { nUbSites++; nUbTrivial++; }
  }
  void readObj(State &s, uint32_t o, uint64_t off, uint64_t n, ByteRef *out) {
    uint64_t i = 0;
    while (i < n) {
      uint64_t a = off + i; const Page *p = s.mem.get(objs[o].basePage + a / PGB); unsigned k = a % PGB; unsigned c = std::min<uint64_t>(PGB - k, n - i);
      for (unsigned j = 0; j < c; j++) out[i + j] = (p && p->b[k + j].n != NONE) ? p->b[k + j] : defByte(o, a + j);
      i += c;
    }
  }
  void writeObj(State &s, uint32_t o, uint64_t off, uint64_t n, const ByteRef *in) {
    uint64_t i = 0;
    while (i < n) {
      uint64_t a = off + i; void **sl = s.mem.slot(objs[o].basePage + a / PGB); Page *p = (Page *)*sl;
      if (!p) { p = new Page; p->rc = 1; for (auto &x : p->b) x.n = NONE; *sl = p; }
      else if (p->rc > 1) { Page *c = new Page(*p); c->rc = 1; p->rc--; *sl = c; p = c; }
      unsigned k = a % PGB; unsigned c = std::min<uint64_t>(PGB - k, n - i);
      for (unsigned j = 0; j < c; j++) p->b[k + j] = in[i + j];
      i += c;
    }
  }
  void readBytes(State &s, N p, uint64_t n, std::vector<ByteRef> &out) {
    std::vector<Acc> ac; bool complete; accesses(s, p, n, ac, complete);
    out.resize(n);
    if (ac.empty()) { for (uint64_t i = 0; i < n; i++) out[i] = ByteRef{t.leaf("badread:" + std::to_string(notes["badread"]++), 8, 2), 0, 0}; return; }
    // last candidate is the default
    readObj(s, ac.back().obj, ac.back().off, n, out.data());
    std::vector<ByteRef> tmp(n), res(n);
    for (size_t i = ac.size() - 1; i-- > 0;) { readObj(s, ac[i].obj, ac[i].off, n, tmp.data()); N c = t.restrict(ac[i].cond, s.guard); mergeRuns(c, tmp.data(), out.data(), res.data(), n); out.swap(res); }
  }
  void writeBytes(State &s, N p, const ByteRef *in, uint64_t n) {
    std::vector<Acc> ac; bool complete; accesses(s, p, n, ac, complete);
    for (auto &a : ac) {
      if (objs[a.obj].gv && objs[a.obj].gv->isConstant()) { notes["write-to-constant"]++; }
      if (ac.size() == 1 && complete) { writeObj(s, a.obj, a.off, n, in); continue; }
      N c = t.restrict(a.cond, s.guard);
      if (c == t.F) continue;
      if (c == t.T) { writeObj(s, a.obj, a.off, n, in); continue; }
      std::vector<ByteRef> old(n), res(n); readObj(s, a.obj, a.off, n, old.data()); mergeRuns(c, in, old.data(), res.data(), n); writeObj(s, a.obj, a.off, n, res.data());
    }
  }
  N loadN(State &s, N p, unsigned bits) {
    unsigned nb = (bits + 7) / 8; std::vector<ByteRef> b;
    // scalar loads through symbolic pointers: merge values rather than bytes
    std::vector<Acc> ac; bool complete; accesses(s, p, nb, ac, complete);
    if (ac.empty()) return t.leaf("badread:" + std::to_string(notes["badread"]++), bits, 2);
    b.resize(nb); readObj(s, ac.back().obj, ac.back().off, nb, b.data()); N r = bytesToN(b.data(), nb);
    for (size_t i = ac.size() - 1; i-- > 0;) { readObj(s, ac[i].obj, ac[i].off, nb, b.data()); N v = bytesToN(b.data(), nb); r = t.mkIte(t.restrict(ac[i].cond, s.guard), v, r); }
    if (t.W(r) != bits) r = t.mkExtract(r, 0, bits);
    return r;
  }
  void storeN(State &s, N p, N v) {
    unsigned bits = t.W(v), nb = (bits + 7) / 8; if (bits != nb * 8) v = t.mkZext(v, nb * 8);
    ByteRef b[16]; uint32_t pr = provFor(curI); for (unsigned i = 0; i < nb; i++) b[i] = ByteRef{v, pr, (uint8_t)i};
    writeBytes(s, p, b, nb);
  }
  Val loadV(State &s, N p, Type *Ty) {
    if (Ty->isStructTy()) { Val v; v.agg = std::make_shared<std::vector<Val>>(); auto *SL = DL.getStructLayout(cast<StructType>(Ty)); for (unsigned i = 0; i < Ty->getStructNumElements(); i++) v.agg->push_back(loadV(s, t.mkAdd(p, t.mkC(64, SL->getElementOffset(i))), Ty->getStructElementType(i))); return v; }
    if (Ty->isArrayTy() || Ty->isVectorTy()) { Val v; v.agg = std::make_shared<std::vector<Val>>(); Type *E = Ty->isArrayTy() ? Ty->getArrayElementType() : cast<FixedVectorType>(Ty)->getElementType(); unsigned n = Ty->isArrayTy() ? Ty->getArrayNumElements() : cast<FixedVectorType>(Ty)->getNumElements(); uint64_t es = DL.getTypeAllocSize(E); for (unsigned i = 0; i < n; i++) v.agg->push_back(loadV(s, t.mkAdd(p, t.mkC(64, i * es)), E)); return v; }
    return Val(loadN(s, p, widthOf(Ty)));
  }
  void storeV(State &s, N p, const Val &v, Type *Ty) {
    if (Ty->isStructTy()) { auto *SL = DL.getStructLayout(cast<StructType>(Ty)); for (unsigned i = 0; i < Ty->getStructNumElements(); i++) storeV(s, t.mkAdd(p, t.mkC(64, SL->getElementOffset(i))), (*v.agg)[i], Ty->getStructElementType(i)); return; }
    if (Ty->isArrayTy() || Ty->isVectorTy()) { Type *E = Ty->isArrayTy() ? Ty->getArrayElementType() : cast<FixedVectorType>(Ty)->getElementType(); unsigned n = v.agg->size(); uint64_t es = DL.getTypeAllocSize(E); for (unsigned i = 0; i < n; i++) storeV(s, t.mkAdd(p, t.mkC(64, i * es)), (*v.agg)[i], E); return; }
    storeN(s, p, v.n);
  }
  Val iteV(N c, const Val &a, const Val &b) {
    if (a.agg || b.agg) { if (!a.agg) return b; if (!b.agg) return a; Val v; v.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(iteV(c, (*a.agg)[i], (*b.agg)[i])); return v; }
    if (a.n == NONE) return b;
    if (b.n == NONE) return a;
    return Val(t.mkIte(c, a.n, b.n));
  }
  // ------------------------------------------------------------ merging
  void mergeT(N c, TN *&A, TN *B, unsigned lv, uint64_t pg) { // result into A (A consumed), B borrowed
    if (A == B || !B) return;
    if (!A) { A = B; B->rc++; return; }
    if (A->rc > 1) { TN *n = new TN(*A); n->rc = 1; for (unsigned i = 0; i < FAN; i++) if (n->ch[i]) { if (lv == 1) ((Page *)n->ch[i])->rc++; else ((TN *)n->ch[i])->rc++; } A->rc--; A = n; }
    for (unsigned i = 0; i < FAN; i++) {
      if (A->ch[i] == B->ch[i]) continue;
      uint64_t pp = pg * FAN + i;
      if (lv > 1) { TN *ch = (TN *)A->ch[i]; mergeT(c, ch, (TN *)B->ch[i], lv - 1, pp); A->ch[i] = ch; continue; }
      Page *a = (Page *)A->ch[i], *b = (Page *)B->ch[i];
      uint32_t o = objOfPage(pp); Obj &ob = objs[o];
      if (ob.dead) continue;
      if (!a || !b) {
        if (ob.def == 0 && !ob.gv) { if (!a) { A->ch[i] = b; b->rc++; } continue; }
      }
      uint64_t base = (pp - ob.basePage) * PGB; unsigned n = (unsigned)std::min<uint64_t>(PGB, ob.size - base);
      Page *r = new Page; r->rc = 1; ByteRef x[PGB], y[PGB];
      for (unsigned k = 0; k < PGB; k++) r->b[k].n = NONE;
      // bytes never written on one side of an uninitialised object take the other side
      for (unsigned k = 0; k < n; k++) {
        bool ha = a && a->b[k].n != NONE, hb = b && b->b[k].n != NONE;
        if (!ha && !hb) { x[k].n = y[k].n = NONE; x[k].idx = y[k].idx = 0; x[k].prov = y[k].prov = 0; continue; }
        if (ob.def == 0 && !ob.gv && (!ha || !hb)) { x[k] = y[k] = ha ? a->b[k] : b->b[k]; continue; }
        x[k] = ha ? a->b[k] : defByte(o, base + k); y[k] = hb ? b->b[k] : defByte(o, base + k);
      }
      mergeRuns(c, x, y, r->b, n);
      Mem::relP(a); A->ch[i] = r;
    }
  }
  void mergeState(State &a, State &b, N &cond) { // a := merge; cond = select for a
    nMerges++;
    N g = t.bOr(a.guard, b.guard);
    cond = t.restrict(a.guard, g);
    if (cond == t.T || cond == t.F) { // indistinguishable guards cannot happen unless one is empty
      if (a.guard == t.F) { a = b; cond = t.F; return; }
      if (b.guard == t.F) { cond = t.T; return; }
    }
    mergeT(cond, a.mem.root, b.mem.root, LEVELS, 0);
    a.guard = g;
  }

  // ------------------------------------------------------------ functions
  FnInfo *info(const Function *F) {
    auto it = finfo.find(F); if (it != finfo.end()) return it->second;
    FnInfo *fi = new FnInfo; unsigned k = 0;
    for (auto &A : F->args()) fi->num[&A] = k++;
    for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) fi->num[&I] = k++;
    fi->nvals = k;
    DominatorTree DT(*const_cast<Function *>(F)); LoopInfo LI(DT);
    std::function<void(Loop *, std::vector<unsigned>, std::vector<const BasicBlock *>)> doRegion = [&](Loop *R, std::vector<unsigned> prefix, std::vector<const BasicBlock *> hdrs) {
      // items: pair(block or loop)
      BasicBlock *entry = R ? R->getHeader() : const_cast<BasicBlock *>(&F->getEntryBlock());
      auto itemOf = [&](BasicBlock *B) -> void * { Loop *L = LI.getLoopFor(B); if (L == R) return B; while (L && L->getParentLoop() != R) L = L->getParentLoop(); return L; };
      auto inR = [&](BasicBlock *B) { return !R || R->contains(B); };
      std::vector<void *> post; std::set<void *> seen; std::map<void *, bool> isLoop;
      std::function<void(void *, bool)> dfs = [&](void *it, bool lp) {
        if (!seen.insert(it).second) return; isLoop[it] = lp;
        std::vector<BasicBlock *> blocks; if (lp) { for (auto *b : ((Loop *)it)->blocks()) blocks.push_back(b); } else blocks.push_back((BasicBlock *)it);
        for (auto *b : blocks) for (auto *sx : successors(b)) { if (!inR(sx)) continue; if (R && sx == R->getHeader()) continue; void *si = itemOf(sx); if (!si || si == it) continue; Loop *sl = LI.getLoopFor(sx); dfs(si, sl != R); }
        post.push_back(it);
      };
      dfs(itemOf(entry), LI.getLoopFor(entry) != R);
      unsigned pos = 0;
      for (size_t i = post.size(); i-- > 0;) {
        auto pf = prefix; pf.push_back(pos++);
        if (isLoop[post[i]]) { auto h = hdrs; h.push_back(((Loop *)post[i])->getHeader()); doRegion((Loop *)post[i], pf, h); }
        else { FnInfo::BI b; b.path = pf; b.headers = hdrs; fi->bi[(BasicBlock *)post[i]] = b; }
      }
    };
    doRegion(nullptr, {}, {});
    finfo[F] = fi; return fi;
  }
  typedef std::vector<unsigned> Key;
  struct Pending { const BasicBlock *bb; State st; std::vector<Val> phis; };

  Val call(const Function *F, const std::vector<Val> &args, State &st) {
    if (st.dead || st.guard == t.F) { st.dead = true; return undefV(F->getReturnType()); }
    if (callDepth > 220) fail("call depth");
    entered.insert(F); nCalls++;
    FnInfo *fi = info(F);
    std::vector<Val> env(fi->nvals);
    std::vector<uint32_t> allocas;
    { unsigned k = 0; for (auto &A : F->args()) { env[fi->num[&A]] = args[k++]; } }
    std::map<Key, Pending> pend;
    bool haveRet = false; State retSt; Val retV;
    const BasicBlock *bb = &F->getEntryBlock(); Key key = fi->bi[bb].path; // function entry is never a loop header
    if (!fi->bi[bb].headers.empty()) fail("entry in loop");
    State cur = std::move(st); std::vector<Val> phis;
    std::vector<Val> va(args.begin() + std::min<size_t>(args.size(), F->arg_size()), args.end());
    callDepth++;
    auto val = [&](const Value *V) -> Val { if (auto *C = dyn_cast<Constant>(V)) return constV(C); auto it = fi->num.find(V); if (it == fi->num.end()) { if (isa<MetadataAsValue>(V)) return Val(); fail("unnumbered value"); } return env[it->second]; };
    auto valN = [&](const Value *V) -> N { if (auto *C = dyn_cast<Constant>(V)) { if (!C->getType()->isVectorTy()) return constN(C); } return val(V).n; };
    auto keyFor = [&](const BasicBlock *from, const Key &fk, const BasicBlock *to) -> Key {
      auto &fb = fi->bi[from]; auto &tb = fi->bi[to]; Key k; unsigned nl = tb.headers.size(); 
      // key layout: for each loop: pos, iter ; then pos of block
      bool common = true;
      for (unsigned i = 0; i < nl; i++) {
        k.push_back(tb.path[i]);
        if (common && i < fb.headers.size() && fb.headers[i] == tb.headers[i]) { unsigned it = fk[2 * i + 1]; if (i + 1 == nl && to == tb.headers[i]) { it++; } k.push_back(it); }
        else { common = false; k.push_back(0); }
      }
      k.push_back(tb.path.back()); return k; };
    auto addPending = [&](const BasicBlock *from, const Key &k, const BasicBlock *to, State &&s2, std::vector<Val> &&ph) {
      auto it = pend.find(k);
      if (it == pend.end()) { Pending p; p.bb = to; p.st = std::move(s2); p.phis = std::move(ph); pend.emplace(k, std::move(p)); return; }
      N c; Pending &p = it->second; mergeState(p.st, s2, c);
      for (size_t i = 0; i < ph.size(); i++) p.phis[i] = iteV(c, p.phis[i], ph[i]);
    };
    auto phiVals = [&](const BasicBlock *from, const BasicBlock *to) { std::vector<Val> r; for (auto &ph : to->phis()) r.push_back(val(ph.getIncomingValueForBlock(from))); return r; };
    auto popNext = [&]() -> bool { if (pend.empty()) return false; auto it = pend.begin(); key = it->first; bb = it->second.bb; cur = std::move(it->second.st); phis = std::move(it->second.phis); pend.erase(it); return true; };
    bool running = true;
    while (running) {
      { unsigned i = 0; for (auto &ph : bb->phis()) env[fi->num[&ph]] = phis[i++]; }
      bool ended = false;
      for (auto &I : *bb) {
        if (isa<PHINode>(I)) continue;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        curI = &I; nInstr++;
        if (trace) { std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "%*s%s\n", callDepth, "", s.c_str()); }
        if (I.isTerminator()) {
          if (auto *R = dyn_cast<ReturnInst>(&I)) {
            Val v = R->getReturnValue() ? val(R->getReturnValue()) : Val();
            if (!haveRet) { haveRet = true; retSt = std::move(cur); retV = v; } else { N c; mergeState(retSt, cur, c); retV = iteV(c, retV, v); }
            ended = true; break;
          }
          std::vector<std::pair<const BasicBlock *, N>> succ;
          if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isUnconditional()) succ.push_back({B->getSuccessor(0), t.T});
            else if (B->getSuccessor(0) == B->getSuccessor(1)) succ.push_back({B->getSuccessor(0), t.T});
            else { N c = valN(B->getCondition()); int d = t.decide(c, cur.guard); if (d == 1) succ.push_back({B->getSuccessor(0), t.T}); else if (d == 0) succ.push_back({B->getSuccessor(1), t.T}); else { succ.push_back({B->getSuccessor(0), c}); succ.push_back({B->getSuccessor(1), t.bNot(c)}); } }
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            N v = valN(S->getCondition()); std::vector<std::pair<const BasicBlock *, N>> cs; N any = t.F;
            for (auto &c : S->cases()) { N e = t.mkEq(v, constN(c.getCaseValue())); if (e == t.F || t.decide(e, cur.guard) == 0) continue; any = t.bOr(any, e); bool f = false; for (auto &p : cs) if (p.first == c.getCaseSuccessor()) { p.second = t.bOr(p.second, e); f = true; } if (!f) cs.push_back({c.getCaseSuccessor(), e}); }
            N nd = t.bNot(any); if (t.decide(nd, cur.guard) != 0) { bool f = false; for (auto &p : cs) if (p.first == S->getDefaultDest()) { p.second = t.bOr(p.second, nd); f = true; } if (!f) cs.push_back({S->getDefaultDest(), nd}); }
            succ = cs; if (succ.size() == 1) succ[0].second = t.T;
          } else if (isa<UnreachableInst>(&I)) { ended = true; break; }
          else if (auto *Iv = dyn_cast<InvokeInst>(&I)) { Val r = doCall(*Iv, cur, val, valN, va, allocas); if (!Iv->getType()->isVoidTy()) env[fi->num[&I]] = r; if (cur.dead) { ended = true; break; } succ.push_back({Iv->getNormalDest(), t.T}); }
          else fail("terminator");
          if (succ.size() == 1) {
            const BasicBlock *to = succ[0].first; Key k = keyFor(bb, key, to); auto ph = phiVals(bb, to);
            if (k <= key) fail("irreducible control flow");
            checkLoop(k);
            if (pend.empty() || k < pend.begin()->first) { bb = to; key = std::move(k); phis = std::move(ph); }
            else { addPending(bb, k, to, std::move(cur), std::move(ph)); popNext(); }
          } else {
            nForks++;
            const BasicBlock *from = bb; Key fk = key;
            for (size_t i = 0; i < succ.size(); i++) {
              const BasicBlock *to = succ[i].first; N g = t.bAnd(cur.guard, succ[i].second); if (g == t.F) continue;
              Key k = keyFor(from, fk, to); if (k <= fk) fail("irreducible control flow");
              checkLoop(k);
              auto ph = phiVals(from, to); State s2; s2.guard = g; if (i + 1 == succ.size()) s2.mem = std::move(cur.mem); else s2.mem = cur.mem;
              addPending(from, k, to, std::move(s2), std::move(ph));
            }
            if (!popNext()) running = false;
          }
          goto nextBlock;
        }
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
          uint64_t cnt = 1; if (A->isArrayAllocation()) { N c = valN(A->getArraySize()); if (!t.isC(c)) fail("vla"); cnt = (uint64_t)t.cv(c); }
          uint32_t o = newObj(fnName(F) + "." + A->getName().str(), DL.getTypeAllocSize(A->getAllocatedType()) * cnt, 0); allocas.push_back(o); env[fi->num[&I]] = Val(t.ptrObj(o)); continue;
        }
        if (auto *C = dyn_cast<CallBase>(&I)) {
          Val r = doCall(*C, cur, val, valN, va, allocas); curI = &I;
          if (!I.getType()->isVoidTy()) env[fi->num[&I]] = r;
          if (cur.dead || cur.guard == t.F) { ended = true; break; }
          continue;
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) { env[fi->num[&I]] = loadV(cur, valN(L->getPointerOperand()), L->getType()); continue; }
        if (auto *S = dyn_cast<StoreInst>(&I)) { storeV(cur, valN(S->getPointerOperand()), val(S->getValueOperand()), S->getValueOperand()->getType()); continue; }
        env[fi->num[&I]] = simple(I, cur, val, valN);
      }
      if (ended) { if (!popNext()) running = false; }
    nextBlock:;
    }
    callDepth--;
    for (uint32_t o : allocas) { objs[o].dead = true; }
    if (!haveRet) { st.dead = true; st.guard = t.F; return undefV(F->getReturnType()); }
    st = std::move(retSt); st.dead = false;
    for (uint32_t o : allocas) for (uint64_t i = 0; i < objs[o].npages; i++) st.mem.clear(objs[o].basePage + i);
    return retV;
  }
  void checkLoop(const Key &k) { for (size_t i = 1; i + 1 < k.size(); i += 2) if (k[i] > loopLimit) fail("loop limit"); }

  N icmp(CmpInst::Predicate p, N a, N b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return ptrEq(a, b);
    case CmpInst::ICMP_NE: return t.bNot(ptrEq(a, b));
    case CmpInst::ICMP_ULT: return t.mkUlt(a, b);
    case CmpInst::ICMP_UGT: return t.mkUlt(b, a);
    case CmpInst::ICMP_ULE: return t.bNot(t.mkUlt(b, a));
    case CmpInst::ICMP_UGE: return t.bNot(t.mkUlt(a, b));
    case CmpInst::ICMP_SLT: return t.mkSlt(a, b);
    case CmpInst::ICMP_SGT: return t.mkSlt(b, a);
    case CmpInst::ICMP_SLE: return t.bNot(t.mkSlt(b, a));
    case CmpInst::ICMP_SGE: return t.bNot(t.mkSlt(a, b));
    default: fail("icmp");
    }
  }
  // pointers into different objects are never equal; into the same object compare offsets
  N ptrEq(N a, N b) {
    if (t.W(a) == 64 && a != b && (ptrLike(a) || ptrLike(b))) {
      std::vector<Tgt> x, y; resolve(a, t.T, t.T, x); resolve(b, t.T, t.T, y);
      bool ok = true; for (auto &g : x) if (g.obj == 0 && !t.isC(g.off)) ok = false; for (auto &g : y) if (g.obj == 0 && !t.isC(g.off)) ok = false;
      if (ok) { N r = t.F; for (auto &g : x) for (auto &h : y) { if (g.obj != h.obj) continue; r = t.bOr(r, t.bAnd(t.bAnd(g.cond, h.cond), t.mkEq(g.off, h.off))); } return r; }
    }
    return t.mkEq(a, b);
  }
  template <class VF, class VN> Val simple(const Instruction &I, State &st, VF &val, VN &valN) {
    Type *Ty = I.getType();
    if (Ty->isVectorTy() && (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<UnaryOperator>(I) || isa<CmpInst>(I))) return freshV2(Ty);
    if (auto *B = dyn_cast<BinaryOperator>(&I)) {
      if (Ty->isFPOrFPVectorTy()) return Val(t.uf(std::string("f") + B->getOpcodeName(), widthOf(Ty), {valN(B->getOperand(0)), valN(B->getOperand(1))}));
      N a = valN(B->getOperand(0)), b = valN(B->getOperand(1)); unsigned w = t.W(a);
      auto chkShift = [&]() { if (!ub) return; nUbSites++; ubSeen["shift amount is less than the operand width"]++; N c = t.mkUlt(b, t.mkC(w, w)); if (c == t.T || t.decide(c, st.guard) == 1) { nUbTrivial++; return; } oblige(st.guard, c, "shift amount is less than the operand width", 1); };
      auto chkDiv = [&]() { if (!ub) return; nUbSites++; ubSeen["divisor is nonzero"]++; N c = t.bNot(t.mkEq(b, t.mkC(w, 0))); if (c == t.T || t.decide(c, st.guard) == 1) nUbTrivial++; else oblige(st.guard, c, "divisor is nonzero", 1);
        if (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::SRem) { N o = t.bNot(t.bAnd(t.mkEq(a, t.mkC(w, (u128)1 << (w - 1))), t.mkEq(b, t.mkC(w, ~(u128)0)))); if (o != t.T && t.decide(o, st.guard) != 1) oblige(st.guard, o, "signed division does not overflow", 1); } };
      switch (B->getOpcode()) {
      case Instruction::Add: return Val(t.mkAdd(a, b));
      case Instruction::Sub: return Val(t.mkSub(a, b));
      case Instruction::Mul: return Val(t.mkMul(a, b));
      case Instruction::UDiv: chkDiv(); return Val(t.mkDiv(UDIV, a, b));
      case Instruction::SDiv: chkDiv(); return Val(t.mkDiv(SDIV, a, b));
      case Instruction::URem: chkDiv(); return Val(t.mkDiv(UREM, a, b));
      case Instruction::SRem: chkDiv(); return Val(t.mkDiv(SREM, a, b));
      case Instruction::Shl: chkShift(); return Val(t.mkShl(a, b));
      case Instruction::LShr: chkShift(); return Val(t.mkLshr(a, b));
      case Instruction::AShr: chkShift(); return Val(t.mkAshr(a, b));
      case Instruction::And: return Val(t.mkAnd(a, b));
      case Instruction::Or: return Val(t.mkOr(a, b));
      case Instruction::Xor: return Val(t.mkXor(a, b));
      default: fail("binop");
      }
    }
    if (auto *C = dyn_cast<ICmpInst>(&I)) return Val(icmp(C->getPredicate(), valN(C->getOperand(0)), valN(C->getOperand(1))));
    if (auto *C = dyn_cast<FCmpInst>(&I)) return Val(t.uf("fcmp" + std::to_string(C->getPredicate()), 1, {valN(C->getOperand(0)), valN(C->getOperand(1))}));
    if (auto *C = dyn_cast<CastInst>(&I)) {
      N a = valN(C->getOperand(0)); unsigned w = widthOf(Ty);
      switch (C->getOpcode()) {
      case Instruction::ZExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return Val(t.mkZext(a, w));
      case Instruction::SExt: return Val(t.mkSext(a, w));
      default: return Val(t.uf(std::string("cast") + C->getOpcodeName() + std::to_string(w), w, {a}));
      }
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) return iteV(valN(S->getCondition()), val(S->getTrueValue()), val(S->getFalseValue()));
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      N p = valN(G->getPointerOperand()); std::vector<std::pair<N, u128>> terms; u128 c = 0; Type *prev = nullptr;
      for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        if (StructType *ST = gi.getStructTypeOrNull()) { c += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); prev = gi.getIndexedType(); continue; }
        N ix = valN(gi.getOperand()); if (t.W(ix) < 64) ix = t.mkSext(ix, 64);
        if (ub && !quietUB && gi != gep_type_begin(G)) if (auto *AT = dyn_cast<ArrayType>(prev)) if (AT->getNumElements() > 0) chkIndex(*G, ix, AT->getNumElements(), st);
        prev = gi.getIndexedType();
        terms.push_back({ix, (u128)(uint64_t)DL.getTypeAllocSize(gi.getIndexedType())});
      }
      terms.push_back({p, 1}); return Val(t.mkSum(64, terms, c));
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { Val v = val(E->getAggregateOperand()); for (unsigned i : E->indices()) { Val x = (*v.agg)[i]; v = x; } return v; }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) { Val v = val(E->getAggregateOperand()); return insertV(v, E->getIndices(), 0, val(E->getInsertedValueOperand())); }
    if (auto *E = dyn_cast<ExtractElementInst>(&I)) { Val v = val(E->getVectorOperand()); N ix = valN(E->getIndexOperand()); if (!t.isC(ix) || !v.agg) fail("extractelement"); return (*v.agg)[(unsigned)t.cv(ix)]; }
    if (auto *E = dyn_cast<InsertElementInst>(&I)) { Val v = val(E->getOperand(0)); N ix = valN(E->getOperand(2)); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[(unsigned)t.cv(ix)] = val(E->getOperand(1)); return r; }
    if (isa<FreezeInst>(&I)) return val(I.getOperand(0));
    if (isa<UnaryOperator>(&I)) return Val(t.uf("fneg", widthOf(Ty), {valN(I.getOperand(0))}));
    if (auto *X = dyn_cast<AtomicRMWInst>(&I)) { N p = valN(X->getPointerOperand()), v = valN(X->getValOperand()); N old = loadN(st, p, t.W(v)); N nv = old; switch (X->getOperation()) { case AtomicRMWInst::Add: nv = t.mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = t.mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = t.mkOr(old, v); break; case AtomicRMWInst::And: nv = t.mkAnd(old, v); break; default: fail("atomicrmw"); } storeN(st, p, nv); return Val(old); }
    if (isa<FenceInst>(&I)) return Val();
    std::string s; raw_string_ostream os(s); I.print(os); fail("instruction " + s);
  }
  // an index into an array stays below its length; the position one past the end may be formed but not used
  void chkIndex(const GetElementPtrInst &G, N ix, uint64_t n, State &st) {
    static const char *R = "array index is inside the array"; ubSeen[R]++; nUbSites++;
    bool used = false; for (const User *U : G.users()) used |= isa<LoadInst>(U) || isa<GetElementPtrInst>(U) || isa<CallBase>(U) || (isa<ReturnInst>(U) && G.getFunction()->getAttributes().getRetDereferenceableBytes() > 0) || (isa<StoreInst>(U) && cast<StoreInst>(U)->getPointerOperand() == &G);
    if (t.isC(ix)) { if ((uint64_t)t.cv(ix) < n + !used) { nUbTrivial++; return; } }
    N c = t.mkUlt(ix, t.mkC(64, n + !used)); if (c == t.T || t.decide(c, st.guard) == 1) { nUbTrivial++; return; }
    oblige(st.guard, c, R, 1);
  }
  Val freshV2(Type *Ty) { auto *VT = cast<FixedVectorType>(Ty); Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < VT->getNumElements(); i++) v.agg->push_back(Val(t.leaf("vec#" + std::to_string(notes["vec"]++), widthOf(VT->getElementType()), 2))); return v; }
  Val insertV(const Val &v, ArrayRef<unsigned> ix, unsigned d, const Val &x) { Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); if (d + 1 == ix.size()) (*r.agg)[ix[d]] = x; else (*r.agg)[ix[d]] = insertV((*v.agg)[ix[d]], ix, d + 1, x); return r; }

  std::map<uint32_t, std::string> strObj; std::map<std::string, uint32_t> strOf; // strings made by __v_text
  N textObj(const std::string &x) { auto it = strOf.find(x); if (it == strOf.end()) { uint32_t o = newObj("text", 1, 0); strObj[o] = x; it = strOf.emplace(x, o).first; } return t.ptrObj(it->second); }
  std::string cstr(State &s, N p) {
    std::vector<Tgt> tg; resolve(p, t.T, s.guard, tg); if (tg.size() != 1 || tg[0].obj == 0 || !t.isC(tg[0].off)) return "?";
    { auto it = strObj.find(tg[0].obj); if (it != strObj.end()) return it->second; }
    std::string r; uint64_t off = (uint64_t)t.cv(tg[0].off);
    for (; off < objs[tg[0].obj].size; off++) { ByteRef b = getByte(s, tg[0].obj, off); N v = bytesToN(&b, 1); if (!t.isC(v)) return r + "?"; char ch = (char)t.cv(v); if (!ch) break; r += ch; }
    return r;
  }
#include "calls.inc"
};
