// P12: a faulting instruction in the reference interpreter changes nothing but the trap state.
// ENTRY: ref_data_fault 20
// ENTRY: ref_fetch_fault
// ENTRY: ref_illegal 23
#include "refm.h"
#include "priv.h"
static bool f_load, f_store;
static bool xlate(RefCpu *, uint32_t &p, uint32_t v, uint32_t type) {
  p = (uint32_t)__v_uf("translation", 32, v) & ~3u | (v & 3);
  return type == 0 ? true : type == 1 ? !f_load : !f_store;
}
static bool fetch_fault(RefCpu *, uint32_t &p, uint32_t v, uint32_t type) { return false; }
static void begin(RefCpu &c, priv::S &s) {
  refm::any_state(c);
  for (int i = 0; i < 21; i++) s.csr[i] = c.state.csr[i];
  bool tick = (uint64_t)sim_time + g_ref_timer_offset >= g_ref_timer_cmp;
  s.csr[priv::mip] = (s.csr[priv::mip] & ~0x80u) | (tick ? 0x80u : 0);
  s.csr[priv::mie] = 0; priv::alias(s);
  s.priv = v_any<uint8_t>("priv") & 3; s.priv |= s.priv >> 1;
}
static void check(RefCpu &c, priv::S &s, uint32_t w, uint32_t cause, uint32_t tval, const char *nm) {
  for (int i = 0; i < 21; i++) c.state.csr[i] = s.csr[i];
  c.privilege = s.priv;
  uint32_t pc = c.state.pc, g[32]; for (int i = 0; i < 32; i++) g[i] = c.state.gpr[i];
  bool rv = c.state.reserve_valid; uint32_t ra = c.state.reserve_addr;
  uint64_t to = g_ref_timer_offset, tc = g_ref_timer_cmp;
  priv::S t = s;
  uint32_t next = priv::exception(t, cause, tval, pc);
  refm::step(c, w);
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], g[i], v_rule("registers unchanged by faulting", nm));
  V_REQUIRE(refm::nlog == 0, v_rule("memory unchanged by faulting", nm));
  V_REQUIRE(!c.state.store, v_rule("no store reported for faulting", nm));
  v_is<bool>(c.state.reserve_valid, rv, v_rule("reservation unchanged by faulting", nm));
  v_is<uint32_t>(c.state.reserve_addr, ra, v_rule("reservation unchanged by faulting", nm));
  V_REQUIRE(g_ref_timer_offset == to && g_ref_timer_cmp == tc, v_rule("timer unchanged by faulting", nm));
  for (int i = 0; i < 21; i++) if (i != priv::mip && i != priv::sip) v_is<uint32_t>(c.state.csr[i], t.csr[i], v_rule(v_rule("trap state after faulting", nm), priv::name[i]));
  v_is<uint32_t>(c.privilege, t.priv, v_rule("privilege after faulting", nm));
  v_is<uint32_t>(c.state.pc, next, v_rule("handler address after faulting", nm));
  V_REQUIRE(!c.sim_end, v_rule("simulation continues after faulting", nm));
}
extern "C" void ref_data_fault(int k) {
  refm::model(); __v_model("RefCpu::va2pa_fix", (void *)xlate);
  static RefCpu c; priv::S s; begin(c, s);
  s.csr[priv::satp] |= 0x80000000u; s.csr[priv::mstatus] = (s.csr[priv::mstatus] | 0x20000u) & ~0x1000u; priv::alias(s);
  f_load = v_any<bool>("read_fails"); f_store = v_any<bool>("write_fails");
  uint32_t w = v_any<uint32_t>("inst"), cause, a;
  static const uint32_t lf[5] = {0, 1, 2, 4, 5}, amo[10] = {0, 1, 4, 8, 12, 16, 20, 24, 28, 3};
  const char *nm;
  if (k < 5) { V_ASSUME(f_load); w = 0x03 | lf[k] << 12 | (w & 0xfff00f80) | 9 << 15; a = c.state.gpr[9] + isa::immI(w); cause = 13; nm = "load"; }
  else if (k < 8) { V_ASSUME(f_store); w = 0x23 | (k - 5) << 12 | (w & 0xfff00f80) | 9 << 15; a = c.state.gpr[9] + isa::immS(w); cause = 15; nm = "store"; }
  else if (k == 8) { V_ASSUME(f_load); w = 0x1000202f | (w & 0x06000f80) | 9 << 15; a = c.state.gpr[9]; cause = 13; nm = "load-reserved"; }
  else if (k < 19) { w = 0x2f | 2 << 12 | amo[k - 9] << 27 | (w & 0x07f00f80) | 9 << 15; V_ASSUME(amo[k - 9] == 3 ? f_store : f_load || f_store); a = c.state.gpr[9]; cause = 15; nm = "atomic"; }
  else { V_ASSUME(f_store); w = 0x23 | 2 << 12 | (w & 0xfff00f80) | 9 << 15; c.state.gpr[9] = 0x10000000u - isa::immS(w); a = 0x10000000u; cause = 15; nm = "device store"; }
  check(c, s, w, cause, a, nm);
}
extern "C" void ref_fetch_fault(int) {
  refm::model(); __v_model("RefCpu::va2pa_fix", (void *)fetch_fault);
  static RefCpu c; priv::S s; begin(c, s);
  s.priv &= 1; s.csr[priv::satp] |= 0x80000000u;
  check(c, s, v_any<uint32_t>("inst"), 12, c.state.pc, "fetch");
}
// Floating-point operations are opaque here; only their legality matters.
extern "C" void ref_illegal(int k) {
  refm::model();
  static RefCpu c; priv::S s; begin(c, s);
  s.csr[priv::satp] &= 0x7fffffffu;
  uint32_t w = v_any<uint32_t>("inst"), op = w & 0x7f; const char *nm = "";
  switch (k) {
  case 0: nm = "unsupported opcode"; // major opcodes the processor does not implement
    { static const uint8_t known[] = {0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73, 0x2f, 0x53, 0x43, 0x47, 0x4b, 0x4f}; for (uint8_t x : known) V_ASSUME(op != x); } break;
  case 1: nm = "read of the time counter"; w = (v_any<bool>("hi") ? 0xc81u : 0xc01u) << 20 | 0x73 | (w & 0x000f8f80) | ((w >> 12 & 3) == 0 ? 0x2000 : (w & 0x7000)); break;
  case 2: nm = "reserved rounding mode"; w = (w & 0xffff8f80u) | (v_any<bool>("rm6") ? 0x6000 : 0x5000) | 0x53; break;
  case 3: nm = "reserved sign-injection form"; w = (w & 0x01ff8f80u) | 0x20000053 | (v_any<bool>("f4") ? 0x4000 : 0x3000); break;
  case 4: nm = "reserved compare form"; w = (w & 0x01ff8f80u) | 0xa0000053 | (v_any<bool>("f4") ? 0x4000 : 0x3000); break;
  case 5: nm = "unsupported floating-point function"; w = (w & 0x01ff8f80u) | 0x53 | (v_any<bool>("hi") ? 0xfe000000u : 0x3c000000u); break;
  }
  static const uint8_t unk[] = {0x07, 0x0b, 0x1b, 0x1f, 0x27, 0x2b, 0x3b, 0x3f, 0x57, 0x5b, 0x5f, 0x6b, 0x77, 0x7b, 0x7f, 0x00, 0x01};
  if (k >= 6) { nm = "unsupported opcode"; w = (w & ~0x7fu) | unk[k - 6]; }
  check(c, s, w, 2, w, nm);
}
