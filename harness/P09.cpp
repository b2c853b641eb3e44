// P09: Sv32 translation in the reference interpreter.
// ENTRY: ref_walk 12
// ENTRY: ref_use 8
#include "refm.h"
#include "sv32.h"
static uint32_t pte1, pte2, a1, a2; static int reads;
static uint32_t pt_read(const RefCpu *, uint32_t a) { return a == a1 ? pte1 : a == a2 ? pte2 : (uint32_t)__v_uf("other_memory", 32, a); }
static const char *const kind[3] = {"fetch", "load", "store"};
extern "C" void ref_walk(int part) {
  int type = part % 3, shape = part / 3;
  __v_model("RefCpu::load_word", (void *)pt_read);
  static RefCpu c; refm::any_state(c);
  uint32_t st = c.state.csr[csr_mstatus], va = v_any<uint32_t>("va");
  uint32_t priv = v_any<uint32_t>("user") & 1, mpp = v_any<uint32_t>("mpp_user") & 1;
  st = (st & ~0x1800u) | mpp << 11; c.state.csr[csr_mstatus] = st; c.privilege = priv;
  uint32_t satp = c.state.csr[csr_satp] |= 0x80000000u;
  uint32_t p1 = v_any<uint32_t>("pte1"), p2 = v_any<uint32_t>("pte2");
  if (shape == 0) p1 = (p1 & ~14u) | 1;                 // pointer to a second level
  else if (shape == 1) p1 |= 2; else if (shape == 2) p1 |= 8;   // leaves; shape 3: anything
  a1 = sv32::l1_addr(satp, va); a2 = sv32::l2_addr(p1, va);
  pte1 = p1; pte2 = p2; if (a1 == a2) p2 = p1;
  uint32_t ep = sv32::eff(type, priv, st >> 17 & 1, mpp), leafv = sv32::leaf(p1) ? p1 : p2;
  bool ok = !sv32::bad(p1) && (sv32::leaf(p1) ? !sv32::misaligned(p1) : !sv32::bad(p2) && sv32::leaf(p2)) && sv32::may(leafv, type, ep, st >> 18 & 1, st >> 19 & 1);
  uint32_t p = 0;
  bool got = c.va2pa_fix(p, va, type);
  v_is<bool>(got, ok, v_rule("reference grants exactly the architected access", kind[type]));
  if (got && ok) v_is<uint32_t>(p, sv32::pa(leafv >> 10, sv32::leaf(p1), va), v_rule("reference physical address", kind[type]));
}
// when and with which address and kind the interpreter translates
static bool asked[3]; static uint32_t fetch_pa; static bool first;
static bool xl(RefCpu *, uint32_t &p, uint32_t v, uint32_t type) {
  asked[type] = true; p = (uint32_t)__v_uf("translation", 32, v, type) & ~3u | (v & 3);
  return __v_uf("granted", 1, v, type) != 0;
}
static uint32_t ld(const RefCpu *, uint32_t a) { if (first) { first = false; fetch_pa = a; return refm::inst; } return refm::peek(a); }
extern "C" void ref_use(int k) {
  refm::model(); __v_model("RefCpu::load_word", (void *)ld); __v_model("RefCpu::va2pa_fix", (void *)xl);
  static RefCpu c; refm::any_state(c); refm::no_interrupts(c);
  uint32_t priv = sv32::legal_priv(v_any<uint32_t>("p")), mpp = sv32::legal_priv(v_any<uint32_t>("m"));
  c.privilege = priv; uint32_t st = c.state.csr[csr_mstatus] = (c.state.csr[csr_mstatus] & ~0x1800u) | mpp << 11;
  bool on = c.state.csr[csr_satp] >> 31; uint32_t pc = c.state.pc &= ~3u;
  bool fx = on && priv != 3, dx = on && sv32::eff(1, priv, st >> 17 & 1, mpp) != 3;
  uint32_t rs1 = c.state.gpr[9], rs2 = c.state.gpr[10], old5 = c.state.gpr[5];
  c.state.gpr[9] = rs1 &= ~3u; 
  V_ASSUME((rs1 >> 28) == 8);
  uint32_t dpa1 = (uint32_t)__v_uf("translation", 32, rs1, 1) & ~3u, dpa2 = (uint32_t)__v_uf("translation", 32, rs1, 2) & ~3u;
  bool g1 = __v_uf("granted", 1, rs1, 1) != 0, g2 = __v_uf("granted", 1, rs1, 2) != 0, g0 = __v_uf("granted", 1, pc, 0) != 0;
  bool fetched = !fx || g0;
  V_ASSUME((dpa2 >> 28) == 8 && (dpa1 >> 28) == 8);
  static const uint32_t w[8] = {0x0004a283u /*lw*/, 0x00a4a023u /*sw*/, 0x1004a2afu /*lr*/, 0x00a4a2afu /*amoadd*/, 0x00048283u /*lb*/, 0x00a48023u /*sb*/, 0x0004d283u /*lhu*/, 0x00a49023u /*sh*/};
  refm::inst = w[k]; first = true; c.exec();
  if (fetched) v_is<uint32_t>(fetch_pa, fx ? (uint32_t)__v_uf("translation", 32, pc, 0) & ~3u : pc, "fetch goes to the translated address exactly when translation is on");
  bool st_k = k == 1 || k == 5 || k == 7 || k == 3, ld_k = !st_k || k == 3;
  bool ok = fetched && (!dx || ((!ld_k || g1) && (!st_k || g2)));
  uint32_t a = dx ? (st_k ? dpa2 : dpa1) : rs1;
  if (st_k) { V_REQUIRE((refm::nlog != 0) == ok, "a store reaches memory exactly when it is granted or untranslated"); if (ok && refm::nlog) v_is<uint32_t>(refm::laddr[0], a, "a store goes to the translated address exactly when data translation is on"); }
  if (k == 0 || k == 2) v_is<uint32_t>(c.state.gpr[5], ok ? refm::initial(a) : old5, "a load reads the translated address exactly when data translation is on");
  if (k == 4) v_is<uint32_t>(c.state.gpr[5], ok ? (uint32_t)(int32_t)(int8_t)refm::initial(a) : old5, "a load reads the translated address exactly when data translation is on");
  if (k == 6) v_is<uint32_t>(c.state.gpr[5], ok ? refm::initial(a) & 0xffff : old5, "a load reads the translated address exactly when data translation is on");
}
