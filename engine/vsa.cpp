// vsa: value-flow analysis of LLVM bitcode.
//   vsa FILE.bc --entry NAME [--arg K] [--seed S] [--wires FILE] [--list-wires]
//       [--out FILE] [--time SECONDS]
#include "interp.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/InitLLVM.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <cstdlib>
#include <unistd.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Result { Obligation o; std::string status; std::vector<std::pair<std::string, u128>> wit; u128 lv = 0, rv = 0; std::string loc; std::string how; };

static std::string provLoc(Interp &in, Eval &ev, uint32_t p) {
  for (int i = 0; i < 10000 && p; i++) {
    Prov &x = in.provs[p];
    if (x.I) return Interp::locStr(x.I);
    if (x.cond == NONE) return "";
    ev.dirty(); bool c = ev.evalNow(x.cond) & 1; p = c ? x.a : x.b;
  }
  return "";
}

struct Decider {
  Interp &in; Terms &t; uint64_t seed; double deadline; 
  std::vector<Result> viol; 
  uint64_t cSame = 0, cGuard = 0, cEq = 0, cDiag = 0, cUndec = 0, cRef = 0, cDeadGuard = 0;
  std::vector<std::string> undec;
  size_t maxViol = 40;
  Decider(Interp &i, uint64_t s, double d) : in(i), t(i.t), seed(s), deadline(d) {}
  bool check(Eval &ev, const Obligation &o) { return ev.get(o.guard) == 1 && ev.get(o.lhs) != ev.get(o.rhs); }
  void record(Eval &ev, const Obligation &o, const char *how) {
    cRef++; if (viol.size() >= maxViol) return;
    Result r; r.o = o; r.status = "refuted"; r.how = how; r.lv = ev.get(o.lhs); r.rv = ev.get(o.rhs); r.loc = provLoc(in, ev, o.prov);
    // only the leaves the obligation depends on
    Eval e2(t); e2.addRoots({o.guard, o.lhs, o.rhs});
    for (uint32_t l : e2.leafIds) r.wit.push_back({t.leaves[l].name, ev.leafVal[l]});
    viol.push_back(r);
  }
  bool tryDirected(const Obligation &o, N goal, Rng &rng, int rounds, double tmax) {
    Eval ev(t); ev.addRoots({o.guard, o.lhs, o.rhs, goal});
    double t0 = now();
    for (int i = 0; i < rounds; i++) {
      ev.randomise(rng, i % 4 != 0);
      if (i & 1 || i < 4) ev.directed(rng, goal);
      ev.run();
      if (check(ev, o)) { record(ev, o, "directed"); return true; }
      if (now() - t0 > tmax) break;
    }
    return false;
  }
  void run() {
    std::vector<Obligation> rest;
    for (auto &o : in.obls) {
      if (o.guard == t.F) { cDeadGuard++; continue; }
      if (o.lhs == o.rhs) { cSame++; continue; }
      rest.push_back(o);
    }
    // duplicates
    { std::map<std::tuple<N, N, N>, int> seen; std::vector<Obligation> r2; for (auto &o : rest) { auto k = std::make_tuple(o.guard, o.lhs, o.rhs); if (seen.count(k)) { seen[k]++; continue; } seen[k] = 1; r2.push_back(o); } cSame += rest.size() - r2.size(); rest.swap(r2); }
    // cheap random valuations over everything at once
    Rng rng(seed + 17);
    if (!rest.empty()) {
      Eval ev(t); std::vector<N> roots; for (auto &o : rest) { roots.push_back(o.guard); roots.push_back(o.lhs); roots.push_back(o.rhs); } ev.addRoots(roots);
      std::vector<char> done(rest.size(), 0); double t0 = now(); double lim = std::min(20.0, std::max(1.0, (deadline - now()) / 10));
      for (int i = 0; i < 400; i++) {
        ev.randomise(rng, i % 5 != 0);
        if (i % 3 == 2) { size_t k = rng.below(rest.size()); ev.directed(rng, rest[k].guard); }
        ev.run();
        for (size_t k = 0; k < rest.size(); k++) if (!done[k] && check(ev, rest[k])) { done[k] = 1; record(ev, rest[k], "random"); }
        if (now() - t0 > lim) break;
      }
      std::vector<Obligation> r2; for (size_t k = 0; k < rest.size(); k++) if (!done[k]) r2.push_back(rest[k]); rest.swap(r2);
    }
    std::vector<Obligation> hard;
    for (auto &o : rest) {
      if (now() > deadline) { undecided(o, "time"); continue; }
      try {
        N l = t.simp(o.lhs, o.guard), r = t.simp(o.rhs, o.guard);
        if (l == r) { cGuard++; continue; }
        N eq = t.mkEq(l, r); 
        N goal = t.bAnd(o.guard, t.bNot(eq));
        if (goal == t.F) { cEq++; continue; }
        if (tryDirected(o, goal, rng, 24, 3.0)) continue;
        hard.push_back(o);
      } catch (TermLimit &e) { hard.push_back(o); }
    }
    for (auto &o : hard) {
      if (now() > deadline) { undecided(o, "time"); continue; }
      bool done = false;
      for (long b : {60000L, 500000L}) {
        try {
          Diagram d(t, b); d.stop = std::min(deadline, now() + (b > 100000 ? 12.0 : 3.0)); N g = d.norm(o.guard); if (g == t.F) { cDiag++; done = true; break; }
          N l = d.norm(t.simp(o.lhs, o.guard)), r = d.norm(t.simp(o.rhs, o.guard));
          if (l == r) { cDiag++; done = true; break; }
          N eq = d.apply(-7, {l, r}, [&](std::vector<N> &v) { return t.mkEq(v[0], v[1]); });
          N goal = d.apply(-1, {g, eq, t.T}, [&](std::vector<N> &v) { return v[0] == t.T ? v[1] : v[2]; });
          if (goal == t.T) { cDiag++; done = true; break; }
          N ng = t.bNot(goal);
          if (tryDirected(o, ng, rng, 200, 8.0)) { done = true; break; }
        } catch (TermLimit &e) {}
        if (now() > deadline) break;
      }
      if (!done) { try { N goal = t.bAnd(o.guard, t.bNot(t.mkEq(o.lhs, o.rhs))); if (tryDirected(o, goal, rng, 400, 10.0)) done = true; } catch (TermLimit &e) {} }
      if (!done) undecided(o, "normal forms differ, no valuation found");
    }
  }
  void undecided(const Obligation &o, const char *why) { cUndec++; if (undec.size() < 60) undec.push_back(o.msg + " @ " + o.where + " (" + why + ")"); if (getenv("VSA_DEBUG")) fprintf(stderr, "UNDEC %s\n  g=%s\n  l=%s\n  r=%s\n", o.msg.c_str(), t.str(o.guard, 6).c_str(), t.str(t.simp(o.lhs, o.guard), 8).c_str(), t.str(t.simp(o.rhs, o.guard), 8).c_str()); }
};

int main(int argc, char **argv) {
  std::string file, entry, wires, out; long arg = 0; bool haveArg = false, listW = false, stats = false; uint64_t seed = 1; double tl = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--arg") { arg = atol(nx().c_str()); haveArg = true; } else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0); else if (a == "--wires") wires = nx(); else if (a == "--out") out = nx(); else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--list-wires") listW = true; else if (a == "--stats") stats = true; else file = a;
  }
  struct rlimit rl = {1ul << 30, 1ul << 30}; 
  { struct rlimit cur; getrlimit(RLIMIT_STACK, &cur); if (cur.rlim_cur != RLIM_INFINITY && cur.rlim_cur < (1ul << 30) && !getenv("VSA_RE")) { rl.rlim_max = cur.rlim_max; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("VSA_RE", "1", 1); execv("/proc/self/exe", argv); } }
  double t0 = now(), deadline = t0 + tl;
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("vsa", errs()); return 2; }
  if (listW) { // every wire<EXPR>/reg<EXPR> spelling in debug info
    std::set<std::string> s; 
    for (auto &F : *M) (void)F;
    std::ifstream f; std::string dummy;
    Interp in(*M);
    SmallVector<const MDNode *, 64> work; std::set<const MDNode *> seen;
    auto push = [&](const Metadata *m) { if (auto *n = dyn_cast_or_null<MDNode>(m)) if (seen.insert(n).second) work.push_back(n); };
    for (auto &N : M->named_metadata()) for (auto *o : N.operands()) push(o);
    for (auto &F : *M) if (auto *SP = F.getSubprogram()) push(SP);
    while (!work.empty()) { auto *n = work.pop_back_val(); if (auto *D = dyn_cast<DIDerivedType>(n)) { std::string ex; if (Interp::isWireName(D->getName(), ex)) s.insert(ex); } for (auto &op : n->operands()) push(op.get()); }
    for (auto &e : s) { char *p; strtol(e.c_str(), &p, 0); if (*p) printf("%s\n", e.c_str()); }
    return 0;
  }
  Function *E = nullptr;
  for (auto &F : *M) if (!F.isDeclaration() && (F.getName() == entry)) E = &F;
  if (!E) { fprintf(stderr, "ANALYSIS-BROKEN: no entry %s\n", entry.c_str()); return 2; }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
    ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM);
  }
  Interp in(*M); in.entryName = entry; in.trace = getenv("VSA_TRACE") != nullptr;
  if (!wires.empty()) { std::ifstream f(wires); std::string line; while (std::getline(f, line)) { size_t p = line.rfind('\t'); if (p != std::string::npos) in.wireW[line.substr(0, p)] = atoi(line.c_str() + p + 1); } }
  std::string broken; Decider dec(in, seed, deadline);
  double tInterp = 0;
  try {
    State st; st.guard = in.t.T;
    if (auto *G = M->getGlobalVariable("__v_wire_table", true)) {
      if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &op : CA->operands()) {
        auto *S = dyn_cast<ConstantStruct>(op); if (!S || S->getOperand(0)->isNullValue()) continue;
        std::string nm = in.cstr(st, in.constN(S->getOperand(0))); in.wireW[nm] = (int)cast<ConstantInt>(S->getOperand(1))->getSExtValue(); }
    }
    // static initialisers, in order
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> cs; for (auto &op : CA->operands()) { auto *S = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs) { in.call(c.second, {}, st); if (st.dead) throw Broken("static initialiser ends the program"); }
    }
    std::vector<Val> args; for (auto &A : E->args()) args.push_back(Val(in.t.mkC(A.getType()->getIntegerBitWidth(), (u128)(__int128)arg)));
    in.call(E, args, st);
    if (st.dead && !in.noexit) { in.notes["entry-never-returns"]++; }
    tInterp = now() - t0;
    dec.run();
  } catch (Broken &e) { broken = e.what(); } catch (TermLimit &e) { broken = std::string("term limit: ") + e.what() + " at " + Interp::locStr(in.curI) + " [" + in.stackStr() + "]"; }
  if (!broken.empty() && !in.obls.empty()) try { dec.run(); } catch (...) {}   // what was stated before the stop still counts
  (void)haveArg;
  json::Object J;
  J["entry"] = entry; J["arg"] = arg; J["seed"] = (int64_t)seed; J["wall_s"] = now() - t0; J["interp_s"] = tInterp;
  if (!broken.empty()) J["broken"] = broken;
  json::Object O; O["total"] = (int64_t)in.obls.size() + (in.ubOnly ? (int64_t)in.nUbTrivial : 0); if (in.ubOnly) O["in_range_by_value"] = (int64_t)in.nUbTrivial; O["same_value_number"] = (int64_t)dec.cSame; O["unreachable"] = (int64_t)dec.cDeadGuard; O["equal_under_path_condition"] = (int64_t)dec.cGuard; O["decided_by_diagram"] = (int64_t)(dec.cEq + dec.cDiag); O["refuted"] = (int64_t)dec.cRef; O["undecided"] = (int64_t)dec.cUndec; J["obligations"] = std::move(O);
  json::Object S; S["instructions"] = (int64_t)in.nInstr; S["calls"] = (int64_t)in.nCalls; S["branches_split"] = (int64_t)in.nForks; S["joins"] = (int64_t)in.nMerges; S["dereferences"] = (int64_t)in.nDeref; S["terms"] = (int64_t)in.t.nodes.size(); S["inputs"] = (int64_t)in.t.leaves.size(); S["bdd_limit_hits"] = (int64_t)in.t.limitHits; S["ub_sites"] = (int64_t)in.nUbSites; S["ub_trivial"] = (int64_t)in.nUbTrivial; J["stats"] = std::move(S);
  json::Array fn; { std::set<std::string> names; for (auto *F : in.entered) if (auto *SP = F->getSubprogram()) { std::string f = SP->getFilename().str(); if (f.empty() || f[0] != '/') f = SP->getDirectory().str() + "/" + f; names.insert(f + ":" + std::to_string(SP->getLine()) + " " + Interp::fnName(F)); } for (auto &s : names) fn.push_back(s); } J["functions"] = std::move(fn);
  json::Object X; for (auto &p : in.externals) X[p.first] = (int64_t)p.second; J["externals"] = std::move(X);
  json::Object Q; for (auto &p : in.exits) Q[p.first] = (int64_t)p.second; J["exits"] = std::move(Q);
  json::Object Nn; for (auto &p : in.notes) Nn[p.first] = (int64_t)p.second; J["notes"] = std::move(Nn);
  json::Object Sk; for (auto &p : in.skippedTypes) Sk[p.first] = (int64_t)p.second; J["skipped_types"] = std::move(Sk);
  json::Array Uw; for (auto &s : in.unresolvedWires) Uw.push_back(s); J["unresolved_widths"] = std::move(Uw);
  json::Array Ud; for (auto &s : dec.undec) Ud.push_back(s); J["undecided"] = std::move(Ud);
  { std::map<std::string, std::pair<int64_t, int64_t>> m; for (auto &o : in.obls) { std::string k = o.msg; size_t p = k.find(": "); if (p != std::string::npos) k = k.substr(0, p); m[k].first++; if (o.guard != in.t.F) m[k].second++; } for (auto &p : in.ubSeen) { auto &e = m[p.first]; e.first = std::max(e.first, p.second); e.second = std::max(e.second, p.second); } json::Object R; for (auto &p : m) R[p.first] = json::Array{p.second.first, p.second.second}; J["rules"] = std::move(R); }
  json::Array V; for (auto &v : dec.viol) {
    json::Object o; o["rule"] = v.o.msg; o["site"] = v.loc.empty() ? v.o.where : v.loc; o["obligation_at"] = v.o.where; o["stack"] = v.o.stack; o["kind"] = v.o.kind; o["value"] = hex(v.lv); o["required"] = hex(v.rv); o["found_by"] = v.how;
    json::Object w; for (auto &p : v.wit) w[p.first] = hex(p.second); o["inputs"] = std::move(w); V.push_back(std::move(o)); }
  J["violations"] = std::move(V);
  std::string js; raw_string_ostream os(js); os << formatv("{0:2}", json::Value(std::move(J))) << "\n";
  if (out.empty()) std::cout << os.str(); else { std::ofstream f(out); f << os.str(); }
  if (!broken.empty()) { fprintf(stderr, "ANALYSIS-BROKEN: %s\n", broken.c_str()); _exit(2); }
  std::cout.flush();
  _exit(dec.viol.empty() ? 0 : 1);
}
