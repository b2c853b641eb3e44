// P07: trap entry and return in the reference interpreter.
// ENTRY: ref_trap 9
#include "refm.h"
#include "priv.h"
static bool fault(RefCpu *, uint32_t &, uint32_t, uint32_t type) { return false; }
static bool fault_data(RefCpu *, uint32_t &p, uint32_t v, uint32_t type) { return type == 0; }
extern "C" void ref_trap(int k) {
  refm::model();
  __v_model("RefCpu::va2pa_fix", (void *)(k == 1 ? fault : fault_data));
  static RefCpu c; refm::any_state(c);
  priv::S s; for (int i = 0; i < 21; i++) s.csr[i] = c.state.csr[i];
  bool tick = (uint64_t)sim_time + g_ref_timer_offset >= g_ref_timer_cmp;
  s.csr[priv::mip] = (s.csr[priv::mip] & ~0x80u) | (tick ? 0x80u : 0);
  s.csr[priv::mie] = 0; priv::alias(s);
  s.priv = v_any<uint8_t>("priv") & 3; s.priv |= s.priv >> 1;
  uint32_t w = v_any<uint32_t>("inst"); const char *nm = "";
  if (k == 1) { s.priv &= 1; s.csr[priv::satp] |= 0x80000000u; } // translation applies to fetches below machine mode
  else if (k == 2 || k == 3 || k >= 7) { s.csr[priv::satp] |= 0x80000000u; s.csr[priv::mstatus] = (s.csr[priv::mstatus] | 0x20000u) & ~0x1000u; priv::alias(s); } // translation applies to data at every level (MPRV, MPP below M)
  else s.csr[priv::satp] &= 0x7fffffffu;
  for (int i = 0; i < 21; i++) c.state.csr[i] = s.csr[i];
  c.privilege = s.priv;
  uint32_t pc = c.state.pc, to = 0, g[32]; for (int i = 0; i < 32; i++) g[i] = c.state.gpr[i];
  priv::S t = s;
  switch (k) {
  case 0: nm = "ecall"; w = 0x73; to = priv::exception(t, s.priv == 0 ? 8 : s.priv == 1 ? 9 : 11, 0, pc); break;
  case 1: nm = "fetch page fault"; to = priv::exception(t, 12, pc, pc); break;
  case 2: nm = "load page fault"; w = 0x2003 | (w & 0xfff00f80) | 9 << 15; to = priv::exception(t, 13, g[9] + isa::immI(w), pc); break;
  case 3: nm = "store page fault"; w = 0x2023 | (w & 0xfff00f80) | 9 << 15; to = priv::exception(t, 15, g[9] + isa::immS(w), pc); break;
  case 4: nm = "illegal instruction"; w = (v_any<bool>("hi") ? 0xc81u : 0xc01u) << 20 | 0x73 | (w & 0x000f8f80) | 0x2000; to = priv::exception(t, 2, w, pc); break;
  case 5: nm = "mret"; w = 0x30200073; to = priv::mret(t); break;
  case 6: nm = "sret"; w = 0x10200073; to = priv::sret(t); break;
  case 7: nm = "lr page fault"; w = 0x1000202f | (w & 0x06000f80) | 9 << 15; to = priv::exception(t, 13, g[9], pc); break;
  case 8: nm = "amo page fault"; w = 0x0000202f | (w & 0x06f00f80) | 9 << 15 | (v_any<bool>("or") ? 0x40000000u : 0); to = priv::exception(t, 15, g[9], pc); break;
  }
  refm::step(c, w);
  for (int i = 0; i < 21; i++) if (i != priv::mip && i != priv::sip) v_is<uint32_t>(c.state.csr[i], t.csr[i], v_rule(v_rule("after", nm), priv::name[i]));
  v_is<uint32_t>(c.privilege, t.priv, v_rule("privilege after", nm));
  v_is<uint32_t>(c.state.pc, to, v_rule("next address after", nm));
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], g[i], v_rule("registers unchanged by", nm));
  V_REQUIRE(refm::nlog == 0 && !c.state.store, v_rule("memory unchanged by", nm));
}
