// Calls: defined functions, indirect calls, intrinsics, externals and the
// analysis intrinsics used by the harnesses. Included inside struct Interp.

  // ------------------------------------------------------------ debug-info walk
  struct Fld { std::string name; uint64_t bitOff; unsigned storeBits; unsigned bits; bool bitfield; };
  std::set<std::string> unresolvedWires;
  DenseMap<const Function *, const Function *> models; // harness models standing in for a function
  std::map<std::string, uint64_t> skippedTypes;
  DenseMap<const DIType *, std::vector<Fld> *> fldCache;
  static bool isWireName(StringRef n, std::string &expr) {
    for (const char *p : {"wire<", "reg<"}) if (n.starts_with(p) && n.ends_with(">")) { expr = n.substr(strlen(p), n.size() - strlen(p) - 1).str(); return true; }
    return false;
  }
  static bool inStd(const DIScope *S) { while (S) { if (auto *NS = dyn_cast<DINamespace>(S)) if (NS->getName() == "std" ) return true; S = S->getScope(); } return false; }
  void walkType(const DIType *Ty, uint64_t off, const std::string &name, int limit, std::vector<Fld> &out) {
    unsigned wl = 0;
    while (auto *D = dyn_cast_or_null<DIDerivedType>(Ty)) {
      unsigned tag = D->getTag();
      if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_template_alias) {
        std::string ex; if (!wl && isWireName(D->getName(), ex)) { auto it = wireW.find(ex); if (it != wireW.end()) wl = it->second; else { char *e; long v = strtol(ex.c_str(), &e, 0); if (*e == 0 && v > 0) wl = v; else unresolvedWires.insert(ex); } }
        Ty = D->getBaseType();
      } else if (tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_member) Ty = D->getBaseType();
      else if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type || tag == dwarf::DW_TAG_rvalue_reference_type || tag == dwarf::DW_TAG_ptr_to_member_type) { skippedTypes["pointer"]++; return; }
      else { skippedTypes["derived"]++; return; }
    }
    if (!Ty) { skippedTypes["void"]++; return; }
    if (auto *B = dyn_cast<DIBasicType>(Ty)) {
      unsigned sz = B->getSizeInBits(), bits = sz;
      if (B->getEncoding() == dwarf::DW_ATE_boolean) bits = 1;
      else if (B->getEncoding() == dwarf::DW_ATE_float) bits = sz;
      if (wl && wl < bits) bits = wl;
      if (limit > 0 && (unsigned)limit < bits) bits = limit;
      out.push_back({name, off, sz, bits, limit > 0}); return;
    }
    if (auto *C = dyn_cast<DICompositeType>(Ty)) {
      unsigned tag = C->getTag();
      if (tag == dwarf::DW_TAG_enumeration_type) {
        unsigned sz = C->getSizeInBits(); uint64_t mx = 0; bool neg = false;
        for (auto *E : C->getElements()) if (auto *EN = dyn_cast<DIEnumerator>(E)) { const APInt &v = EN->getValue(); if (!EN->isUnsigned() && v.isNegative()) neg = true; else mx = std::max<uint64_t>(mx, v.getZExtValue()); }
        unsigned bits = neg ? sz : std::max(1u, bitlen(mx)); if (bits > sz) bits = sz; if (limit > 0 && (unsigned)limit < bits) bits = limit;
        out.push_back({name, off, sz, bits, limit > 0}); return;
      }
      if (tag == dwarf::DW_TAG_array_type) {
        uint64_t n = 1; std::vector<uint64_t> dims; for (auto *E : C->getElements()) if (auto *S = dyn_cast<DISubrange>(E)) if (auto *ci = dyn_cast_if_present<ConstantInt *>(S->getCount())) { dims.push_back(ci->getZExtValue()); n *= ci->getZExtValue(); }
        if (!n) return; uint64_t es = C->getSizeInBits() / n;
        for (uint64_t i = 0; i < n; i++) { std::string nm = name; uint64_t r = i, q = n; for (uint64_t d : dims) { q /= d; nm += "[" + std::to_string(r / q) + "]"; r %= q; } walkType(C->getBaseType(), off + i * es, nm, 0, out); }
        return;
      }
      if (tag == dwarf::DW_TAG_structure_type || tag == dwarf::DW_TAG_class_type) {
        bool isStd = inStd(C->getScope()); StringRef cn = C->getName();
        if (isStd && !cn.starts_with("array<") && !cn.starts_with("pair<") && !cn.starts_with("bitset<") && !cn.starts_with("_Base_bitset<")) { skippedTypes["std::" + cn.str()]++; return; }
        for (auto *E : C->getElements()) {
          auto *D = dyn_cast_or_null<DIDerivedType>(E); if (!D) continue;
          if (D->getTag() == dwarf::DW_TAG_inheritance) { walkType(D->getBaseType(), off + D->getOffsetInBits(), name, 0, out); continue; }
          if (D->getTag() != dwarf::DW_TAG_member || D->isStaticMember()) continue;
          if (D->getName().starts_with("_vptr")) continue;
          std::string nm = (isStd || D->getName().empty()) ? name : name + "." + D->getName().str();
          if (D->isBitField()) walkType(D->getBaseType(), off + D->getOffsetInBits(), nm, (int)D->getSizeInBits(), out);
          else walkType(D->getBaseType(), off + D->getOffsetInBits(), nm, 0, out);
        }
        return;
      }
      if (tag == dwarf::DW_TAG_union_type) { for (uint64_t b = 0; b < C->getSizeInBits(); b += 8) out.push_back({name + ".byte" + std::to_string(b / 8), off + b, 8, 8, false}); return; }
    }
    skippedTypes["other"]++;
  }
  const std::vector<Fld> &fieldsOf(const DIType *Ty) {
    auto &p = fldCache[Ty]; if (!p) { p = new std::vector<Fld>; walkType(Ty, 0, "", 0, *p); } return *p;
  }
  const DIType *tmplArg(const Function *F) {
    auto *SP = F->getSubprogram(); if (!SP) fail("no debug info on " + F->getName().str());
    for (auto *P : SP->getTemplateParams()) if (auto *TT = dyn_cast<DITemplateTypeParameter>(P)) { if (!TT->getType()) fail("no template type"); return TT->getType(); }
    fail("no template parameter on " + F->getName().str());
  }
  N addOff(N p, uint64_t o) { return o ? t.mkAdd(p, t.mkC(64, o)) : p; }
  N loadFld(State &s, N p, const Fld &f) {
    if (f.bitfield) { uint64_t lo = f.bitOff / 8 * 8; unsigned sh = f.bitOff - lo; unsigned nb = (sh + f.bits + 7) / 8; N v = loadN(s, addOff(p, lo / 8), nb * 8); return t.mkExtract(v, sh, f.bits); }
    return loadN(s, addOff(p, f.bitOff / 8), f.storeBits);
  }
  void storeFld(State &s, N p, const Fld &f, N v) {
    if (f.bitfield) {
      uint64_t lo = f.bitOff / 8 * 8; unsigned sh = f.bitOff - lo; unsigned nb = (sh + f.bits + 7) / 8; N old = loadN(s, addOff(p, lo / 8), nb * 8); std::vector<N> parts;
      if (sh) parts.push_back(t.mkExtract(old, 0, sh)); parts.push_back(v); if (sh + f.bits < nb * 8) parts.push_back(t.mkExtract(old, sh + f.bits, nb * 8 - sh - f.bits));
      storeN(s, addOff(p, lo / 8), t.mkConcat(parts)); return;
    }
    storeN(s, addOff(p, f.bitOff / 8), t.mkZext(v, f.storeBits));
  }
  N mkLeaf(const std::string &nm, unsigned w, int kind = 0) {
    auto it = t.leafIdx.find(nm); if (it != t.leafIdx.end() && t.leaves[it->second].w != w) fail("input " + nm + " used with two widths");
    return t.leaf(nm, w, kind);
  }
  uint32_t provAt(State &s, N p, uint64_t byteOff) {
    std::vector<Tgt> tg; resolve(addOff(p, byteOff), t.T, s.guard, tg); if (tg.size() != 1 || tg[0].obj == 0 || !t.isC(tg[0].off)) return 0;
    uint64_t o = (uint64_t)t.cv(tg[0].off); if (o >= objs[tg[0].obj].size) return 0; return getByte(s, tg[0].obj, o).prov;
  }
  void addObl(State &s, N lhs, N rhs, const std::string &msg, int kind, uint32_t prov) {
    if (ubOnly && kind == 0) return;
    Obligation o; o.guard = s.guard; o.lhs = lhs; o.rhs = rhs; o.msg = msg; o.kind = kind; o.prov = prov;
    const Instruction *h = curI; for (size_t i = callStack.size(); i-- > 0;) { h = callStack[i]; if (const DILocation *L = h->getDebugLoc().get()) if (!L->getFilename().contains("vh.h")) break; }
    o.where = locStr(h); o.stack = stackStr(); obls.push_back(o);
  }

  template <class VF, class VN> Val doCall(const CallBase &C, State &st, VF &val, VN &valN, std::vector<Val> &va, std::vector<uint32_t> &allocas) {
    const Value *cv = C.getCalledOperand()->stripPointerCasts();
    const Function *F = dyn_cast<Function>(cv);
    if (auto *GA = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
    if (F && F->isIntrinsic()) return intrinsic(C, F, st, val, valN);
    std::vector<Val> args;
    for (unsigned i = 0; i < C.arg_size(); i++) {
      const Value *A = C.getArgOperand(i);
      if (C.isByValArgument(i)) { // callee gets its own copy
        uint64_t sz = DL.getTypeAllocSize(C.getParamByValType(i)); uint32_t o = newObj("byval", sz, 0); allocas.push_back(o);
        std::vector<ByteRef> b; readBytes(st, valN(A), sz, b); writeObj(st, o, 0, sz, b.data()); args.push_back(Val(t.ptrObj(o))); continue;
      }
      args.push_back(val(A));
    }
    if (isa<InlineAsm>(cv)) { externals["inline-asm"]++; return freshV(C.getType(), "asm#" + std::to_string(notes["asm"]++), 2); }
    if (F) return callTarget(C, F, args, st);
    // indirect
    std::vector<Tgt> tg; resolve(valN(C.getCalledOperand()), t.T, st.guard, tg);
    std::vector<Tgt> fs; for (auto &g : tg) { if (g.obj && objs[g.obj].fn && t.isC(g.off, 0)) fs.push_back(g); else if (t.decide(g.cond, st.guard) != 0) notes["unresolved-indirect " + locStr(&C)]++; }
    if (fs.empty()) { externals["indirect:" + locStr(&C)]++; return freshV(C.getType(), "ind#" + std::to_string(notes["ind"]++), 2); }
    if (fs.size() == 1) return callTarget(C, objs[fs[0].obj].fn, args, st);
    bool have = false; State acc; Val rv;
    for (auto &g : fs) {
      State s2; s2.mem = st.mem; s2.guard = t.bAnd(st.guard, g.cond); if (s2.guard == t.F) continue;
      Val r = callTarget(C, objs[g.obj].fn, args, s2); if (s2.dead || s2.guard == t.F) continue;
      if (!have) { have = true; acc = std::move(s2); rv = r; } else { N c; mergeState(acc, s2, c); rv = iteV(c, rv, r); }
    }
    if (!have) { st.dead = true; st.guard = t.F; return undefV(C.getType()); }
    st = std::move(acc); return rv;
  }
  Val callTarget(const CallBase &C, const Function *F, std::vector<Val> &args, State &st) {
    callStack.push_back(&C);
    Val r;
    { auto im = models.find(F); if (im != models.end() && im->second != C.getFunction()) F = im->second; }
    if (F->getName().starts_with("__v_")) r = vIntrinsic(C, F, args, st);
    else if (isModelled(F)) r = external(C, F, args, st);
    else if (!F->isDeclaration()) r = call(F, args, st);
    else r = external(C, F, args, st);
    callStack.pop_back();
    return r;
  }
  bool isModelled(const Function *F) {
    StringRef n = F->getName();
    if (n.starts_with("_ZStlsI") || n.starts_with("_ZNSolsE")) return true;
    return false;
  }
  N asN(const Val &v) { if (v.agg) fail("aggregate where scalar expected"); return v.n; }
  uint64_t constArg(N n, const char *what) { if (!t.isC(n)) fail(std::string("non-constant ") + what); return (uint64_t)t.cv(n); }

  Val vIntrinsic(const CallBase &C, const Function *F, std::vector<Val> &a, State &st) {
    StringRef n = F->getName();
    const Function *caller = C.getFunction();
    if (n == "__v_in") {
      std::string nm = cstr(st, asN(a[1])); const DIType *Ty = tmplArg(caller);
      const Instruction *sv = curI; curI = nullptr;
      for (auto &f : fieldsOf(Ty)) { N l = mkLeaf(nm + f.name, f.bits); storeFld(st, asN(a[0]), f, l); }
      curI = sv; return Val();
    }
    if (n == "__v_eq") {
      std::string msg = cstr(st, asN(a[2])); const DIType *Ty = tmplArg(caller);
      for (auto &f : fieldsOf(Ty)) { N x = loadFld(st, asN(a[0]), f), y = loadFld(st, asN(a[1]), f); addObl(st, x, y, f.name.empty() ? msg : msg + ": " + f.name.substr(f.name[0] == '.'), 0, provAt(st, asN(a[0]), f.bitOff / 8)); }
      return Val();
    }
    if (n == "__v_require") { N c = asN(a[0]); if (t.W(c) > 1) c = t.mkExtract(c, 0, 1); addObl(st, c, t.T, cstr(st, asN(a[1])), 0, 0); return Val(); }
    if (n == "__v_assume") { N c = asN(a[0]); if (t.W(c) > 1) c = t.mkExtract(c, 0, 1); st.guard = t.bAnd(st.guard, c); if (st.guard == t.F) st.dead = true; return Val(); }
    if (n == "__v_uf") { std::string nm = cstr(st, asN(a[0])); unsigned w = constArg(asN(a[1]), "width"); std::vector<N> as; for (size_t i = 2; i < a.size(); i++) as.push_back(asN(a[i])); N r = t.uf(nm, w, as); return Val(t.mkZext(r, 64)); }
    if (n == "__v_fresh") { std::string nm = cstr(st, asN(a[0])); return Val(t.mkZext(mkLeaf(nm, constArg(asN(a[1]), "width")), 64)); }
    if (n == "__v_ub") { int f = constArg(asN(a[0]), "flag"); ub = f != 0; if (f == 2) ubOnly = true; return Val(); }
    if (n == "__v_noexit") { noexit = constArg(asN(a[0]), "flag"); return Val(); }
    if (n == "__v_text") return Val(textObj(cstr(st, asN(a[0])) + ": " + cstr(st, asN(a[1]))));
    if (n == "__v_num") return Val(textObj(cstr(st, asN(a[0])) + std::to_string(constArg(asN(a[1]), "index"))));
    if (n == "__v_order") { N x = asN(a[0]); for (unsigned i = 0; i < t.W(x); i++) (void)t.mkExtract(x, i, 1); return Val(); }
    if (n == "__v_note") { notes[cstr(st, asN(a[0]))]++; return Val(); }
    if (n == "__v_show") { fprintf(stderr, "[show] %s = %s\n", cstr(st, asN(a[0])).c_str(), t.str(asN(a[1]), 8).c_str()); return Val(); }
    if (n == "__v_model") {
      std::string nm = cstr(st, asN(a[0])); std::vector<Tgt> tg; resolve(asN(a[1]), t.T, st.guard, tg); if (tg.size() != 1 || !objs[tg[0].obj].fn) fail("model of " + nm);
      const Function *R = objs[tg[0].obj].fn; unsigned hits = 0;
      for (auto &G : M) { if (&G == R || G.isIntrinsic()) continue; std::string fn = G.getSubprogram() ? fnName(&G) : std::string(); bool m = fn == nm || G.getName() == nm; if (!m && !G.getSubprogram()) { std::string dm = demangle(G.getName().str()); size_t p = dm.find('('); if (p != std::string::npos) dm = dm.substr(0, p); m = dm == nm; } if (m) { models[&G] = R; hits++; } }
      if (!hits) fail("modelled function " + nm + " does not exist");
      return Val(); }
    if (n == "__v_isconst") return Val(t.mkC(32, t.isC(asN(a[0]))));
    fail("unknown analysis intrinsic " + n.str());
  }

  void endPath(State &st, const std::string &why, const CallBase &C) {
    exits[why]++;
    if (noexit && !ubOnly && st.guard != t.F) { Obligation o; o.guard = st.guard; o.lhs = t.F; o.rhs = t.T; o.msg = "program stops through " + why; o.where = locStr(&C); o.stack = stackStr(); o.kind = 2; obls.push_back(o); }
    st.dead = true; st.guard = t.F;
  }
  void copyBytes(State &st, N dst, N src, N len) {
    if (!t.isC(len)) {
      VL vl; if (!enumVals(len, st.guard, vl, 300)) fail("memcpy length unbounded");
      // write under the condition of every length
      for (auto &e : vl) { if (!e.first) continue; std::vector<ByteRef> b; State s2; s2.mem = st.mem; s2.guard = t.bAnd(st.guard, e.second); if (s2.guard == t.F) continue; readBytes(s2, src, (uint64_t)e.first, b); std::vector<ByteRef> old, res((size_t)e.first); readBytes(s2, dst, (uint64_t)e.first, old); mergeRuns(e.second, b.data(), old.data(), res.data(), (unsigned)e.first); writeBytes(st, dst, res.data(), (uint64_t)e.first); }
      return;
    }
    uint64_t n = (uint64_t)t.cv(len); if (!n) return; std::vector<ByteRef> b; readBytes(st, src, n, b); writeBytes(st, dst, b.data(), n);
  }
  void setBytes(State &st, N dst, N v, N len) {
    uint64_t n = constArg(len, "memset length"); if (!n) return; ByteRef x{t.mkExtract(v, 0, 8), provFor(curI), 0};
    if (t.isC(x.n, 0)) { // whole-object zeroing of large objects stays cheap
      std::vector<Acc> ac; bool cm; accesses(st, dst, n, ac, cm);
      if (ac.size() == 1 && cm && ac[0].off == 0 && n == objs[ac[0].obj].size && objs[ac[0].obj].heap && n > 65536) { auto &o = objs[ac[0].obj]; o.def = 1; for (uint64_t i = 0; i < o.npages; i++) st.mem.clear(o.basePage + i); return; }
    }
    if (n > (64u << 20)) fail("memset too large");
    std::vector<ByteRef> b(n, x); writeBytes(st, dst, b.data(), n);
  }
  Val external(const CallBase &C, const Function *F, std::vector<Val> &a, State &st) {
    StringRef n = F->getName(); Type *RT = C.getType();
    auto ret0 = [&]() -> Val { return RT->isVoidTy() ? Val() : undefV(RT); };
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
      N sz = asN(a[0]); uint64_t s; if (t.isC(sz)) s = (uint64_t)t.cv(sz); else { if (t[sz].hi > (1u << 26)) fail("allocation of unbounded size"); s = (uint64_t)t[sz].hi; }
      uint32_t o = newObj("heap#" + std::to_string(objs.size()) + "@" + fnName(C.getFunction()), std::max<uint64_t>(s, 1), 0); objs[o].heap = true; return Val(t.ptrObj(o)); }
    if (n == "calloc") { uint64_t s = constArg(asN(a[0]), "calloc") * constArg(asN(a[1]), "calloc"); uint32_t o = newObj("heap#" + std::to_string(objs.size()), std::max<uint64_t>(s, 1), 1); objs[o].heap = true; return Val(t.ptrObj(o)); }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") return ret0();
    if (n == "memcpy" || n == "memmove") { copyBytes(st, asN(a[0]), asN(a[1]), asN(a[2])); return a[0]; }
    if (n == "memset") { setBytes(st, asN(a[0]), asN(a[1]), asN(a[2])); return a[0]; }
    if (n == "memcmp" || n == "bcmp") { uint64_t k = constArg(asN(a[2]), "memcmp length"); N d = t.mkC(32, 0); std::vector<ByteRef> x, y; if (k) { readBytes(st, asN(a[0]), k, x); readBytes(st, asN(a[1]), k, y); } for (uint64_t i = k; i-- > 0;) { N p = bytesToN(&x[i], 1), q = bytesToN(&y[i], 1); d = t.mkIte(t.mkEq(p, q), d, t.mkIte(t.mkUlt(p, q), t.mkC(32, ~(u128)0), t.mkC(32, 1))); } return Val(d); }
    if (n == "strlen") { std::string s = cstr(st, asN(a[0])); if (s.find('?') == std::string::npos) return Val(t.mkC(64, s.size())); }
    if (n == "strcmp") { std::string s = cstr(st, asN(a[0])), r = cstr(st, asN(a[1])); if (s.find('?') == std::string::npos && r.find('?') == std::string::npos) return Val(t.mkC(32, (u128)(__int128)s.compare(r))); }
    if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "__cxa_throw" || n == "__cxa_rethrow" || n.starts_with("_ZSt") && n.contains("__throw_") || n == "__cxa_pure_virtual" || n == "raise") { endPath(st, demangle(n.str()), C); return ret0(); }
    externals[demangle(n.str())]++;
    if (n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fflush" || n == "fputs" || n == "fputc" || n == "putc" || n == "fwrite" || n == "snprintf" || n == "sprintf" || n == "vprintf" || n == "vfprintf" || n == "vsnprintf" || n == "__cxa_atexit" || n == "perror") return ret0();
    if (n.contains("ostream") || n.contains("ios_base") || n.starts_with("_ZNSo") || n.starts_with("_ZStlsI") || n.starts_with("_ZSt4endl") || n.starts_with("_ZSt5flush") || n.contains("_Setfill") || n.contains("_Setw")) { if (RT->isPointerTy() && !a.empty() && !a[0].agg) return a[0]; return ret0(); }
    if (RT->isVoidTy()) return Val();
    return freshV(RT, "ext:" + n.str() + "#" + std::to_string(notes["ext"]++), 2);
  }

  N clzN(N x, N dflt) { unsigned w = t.W(x); N r = dflt; for (unsigned i = 0; i < w; i++) r = t.mkIte(t.mkExtract(x, i, 1), t.mkC(w, w - 1 - i), r); return r; }
  N ctzN(N x, N dflt) { unsigned w = t.W(x); N r = dflt; for (unsigned i = w; i-- > 0;) r = t.mkIte(t.mkExtract(x, i, 1), t.mkC(w, i), r); return r; }
  template <class VF, class VN> Val intrinsic(const CallBase &C, const Function *F, State &st, VF &val, VN &valN) {
    Type *RT = C.getType(); auto A = [&](unsigned i) { return valN(C.getArgOperand(i)); };
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return Val();
    case Intrinsic::stacksave: return Val(t.mkC(64, 0));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(st, A(0), A(1), A(2)); return Val();
    case Intrinsic::memset: setBytes(st, A(0), A(1), A(2)); return Val();
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return val(C.getArgOperand(0));
    case Intrinsic::umin: { N a = A(0), b = A(1); return Val(t.mkIte(t.mkUlt(a, b), a, b)); }
    case Intrinsic::umax: { N a = A(0), b = A(1); return Val(t.mkIte(t.mkUlt(a, b), b, a)); }
    case Intrinsic::smin: { N a = A(0), b = A(1); return Val(t.mkIte(t.mkSlt(a, b), a, b)); }
    case Intrinsic::smax: { N a = A(0), b = A(1); return Val(t.mkIte(t.mkSlt(a, b), b, a)); }
    case Intrinsic::abs: { N a = A(0); return Val(t.mkIte(t.mkSlt(a, t.mkC(t.W(a), 0)), t.mkNeg(a), a)); }
    case Intrinsic::ctpop: { N a = A(0); unsigned w = t.W(a); std::vector<std::pair<N, u128>> s; for (unsigned i = 0; i < w; i++) s.push_back({t.mkZext(t.mkExtract(a, i, 1), w), 1}); return Val(t.mkSum(w, s, 0)); }
    case Intrinsic::ctlz: { N a = A(0); return Val(clzN(a, t.mkC(t.W(a), t.W(a)))); }
    case Intrinsic::cttz: { N a = A(0); return Val(ctzN(a, t.mkC(t.W(a), t.W(a)))); }
    case Intrinsic::bswap: { N a = A(0); unsigned w = t.W(a); std::vector<N> p; for (unsigned i = w; i > 0; i -= 8) p.push_back(t.mkExtract(a, i - 8, 8)); return Val(t.mkConcat(p)); }
    case Intrinsic::bitreverse: { N a = A(0); unsigned w = t.W(a); std::vector<N> p; for (unsigned i = w; i > 0; i--) p.push_back(t.mkExtract(a, i - 1, 1)); return Val(t.mkConcat(p)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { N a = A(0), b = A(1), c = A(2); unsigned w = t.W(a); N k = t.mkDiv(UREM, c, t.mkC(w, w)); N z = t.mkEq(k, t.mkC(w, 0)); N inv = t.mkSub(t.mkC(w, w), k); if (F->getIntrinsicID() == Intrinsic::fshl) return Val(t.mkIte(z, a, t.mkOr(t.mkShl(a, k), t.mkLshr(b, inv)))); return Val(t.mkIte(z, b, t.mkOr(t.mkLshr(b, k), t.mkShl(a, inv)))); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      N a = A(0), b = A(1); unsigned w = t.W(a); N r, o; unsigned W2 = std::min(128u, 2 * w);
      bool sg = F->getIntrinsicID() == Intrinsic::sadd_with_overflow || F->getIntrinsicID() == Intrinsic::ssub_with_overflow || F->getIntrinsicID() == Intrinsic::smul_with_overflow;
      N xa = sg ? t.mkSext(a, W2) : t.mkZext(a, W2), xb = sg ? t.mkSext(b, W2) : t.mkZext(b, W2), x;
      switch (F->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: x = t.mkAdd(xa, xb); break; case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: x = t.mkSub(xa, xb); break; default: x = t.mkMul(xa, xb); }
      r = t.mkExtract(x, 0, w); o = t.bNot(t.mkEq(x, sg ? t.mkSext(r, W2) : t.mkZext(r, W2)));
      Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(r)); v.agg->push_back(Val(o)); return v; }
    case Intrinsic::usub_sat: { N a = A(0), b = A(1); return Val(t.mkIte(t.mkUlt(a, b), t.mkC(t.W(a), 0), t.mkSub(a, b))); }
    case Intrinsic::uadd_sat: { N a = A(0), b = A(1); N s = t.mkAdd(a, b); return Val(t.mkIte(t.mkUlt(s, a), t.mkC(t.W(a), ~(u128)0), s)); }
    case Intrinsic::trap: case Intrinsic::ubsantrap: endPath(st, "trap", C); return Val();
    case Intrinsic::is_constant: return Val(t.F);
    case Intrinsic::objectsize: return Val(t.mkC(t.W(A(1)) == 1 ? widthOf(RT) : 64, ~(u128)0));
    default: {
      std::string nm = F->getName().str(); externals[nm]++; if (RT->isVoidTy()) return Val();
      if (RT->isFloatingPointTy()) { std::vector<N> as; for (unsigned i = 0; i < C.arg_size(); i++) as.push_back(A(i)); return Val(t.uf(nm, widthOf(RT), as)); }
      return freshV(RT, "intr:" + nm + "#" + std::to_string(notes["intr"]++), 2); }
    }
  }
