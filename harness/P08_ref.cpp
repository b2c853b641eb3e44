// P08: the reference interpreter recognises the same interrupts.
// ENTRY: ref_irq 3
#include "refm.h"
#include "priv.h"
#include "back-end/Exu/Csr.cpp"
static RobBroadcastIO bcast; static ExeCsrIO e2c; static CsrExeIO c2e; static RobCsrIO r2c; static CsrRobIO c2r; static CsrFrontIO c2f; static CsrStatusIO cst;
extern "C" void ref_irq(int level) {
  refm::model();
  static RefCpu c; refm::any_state(c); refm::no_translation(c);
  priv::S s; for (int i = 0; i < 21; i++) s.csr[i] = c.state.csr[i];
  bool tick = (uint64_t)sim_time + g_ref_timer_offset >= g_ref_timer_cmp;
  s.csr[priv::mip] = (s.csr[priv::mip] & ~0x80u) | (tick ? 0x80u : 0);
  priv::alias(s);
  s.priv = v_any<uint8_t>("priv") & 3; s.priv |= s.priv >> 1;
  for (int i = 0; i < 21; i++) c.state.csr[i] = s.csr[i];
  // what the register holds before the step differs from the effective value only in the timer bit
  c.state.csr[priv::mip] = v_any<bool>("stale") ? s.csr[priv::mip] ^ 0x80u : s.csr[priv::mip];
  c.privilege = s.priv;
  bool m = priv::any_m(s), v = priv::any_s(s);
  uint32_t pc = c.state.pc, g[32]; for (int i = 0; i < 32; i++) g[i] = c.state.gpr[i];
  uint32_t sel = v_any<uint32_t>("sel") & 7;
  uint32_t w = sel == 0 ? 0x73 : sel == 1 ? 0x30200073 : sel == 2 ? 0x10200073 : sel == 3 ? 0x10500073 : sel == 4 ? 0xc0102573 : sel == 5 ? 0x00c58593 : sel == 6 ? 0x00b52023 : 0x30549573;
  if (level == 2) w = 0x00c58593; // addi a1, a1, 12
  V_ASSUME(level == 0 ? m : level == 1 ? !m && v : !m && !v);
  refm::step(c, w);
  if (level == 2) { v_is<uint32_t>(c.state.pc, pc + 4, "no interrupt taken when none is admitted"); v_is<uint32_t>(c.privilege, s.priv, "privilege kept when no interrupt is admitted"); v_is<uint32_t>(c.state.gpr[11], g[11] + 12, "instruction executed when no interrupt is admitted"); return; }
  uint32_t cause = c.state.csr[level == 0 ? priv::mcause : priv::scause], code = cause & 31;
  bool ok = (cause & 0x7fffffe0u) == 0 && (cause >> 31);
  if (level == 0) V_REQUIRE(ok && ((code == 3 && priv::m_irq(s, 3)) || (code == 7 && priv::m_irq(s, 7)) || (code == 11 && priv::m_irq(s, 11))), "recorded machine cause is an admitted interrupt");
  else V_REQUIRE(ok && ((code == 1 && priv::s_irq(s, 1)) || (code == 5 && priv::s_irq(s, 5)) || (code == 9 && priv::s_irq(s, 9))), "recorded supervisor cause is an admitted interrupt");
  // the pipeline CSR unit records the same one from the same registers
  static Csr csr; csr.in = {&e2c, &r2c, &bcast, nullptr}; csr.out = {&c2e, &c2r, &c2f, &cst};
  for (int i = 0; i < 21; i++) csr.CSR_RegFile[i] = s.csr[i];
  csr.privilege = s.priv; csr.csr_we = false; r2c.interrupt_resp = true; bcast.pc = pc;
  csr.comb_begin(); csr.comb_exception();
  uint32_t want = csr.CSR_RegFile_1[level == 0 ? priv::mcause : priv::scause];
  v_is<uint32_t>(cause, want, "same interrupt recorded as in the pipeline");
  want &= 31;
  priv::S t = s; uint32_t to = priv::enter(t, level == 1, true, want, 0, pc);
  for (int i = 0; i < 21; i++) v_is<uint32_t>(c.state.csr[i], t.csr[i], v_rule(v_rule("after interrupt", level ? "supervisor" : "machine"), priv::name[i]));
  v_is<uint32_t>(c.privilege, t.priv, "privilege after interrupt");
  v_is<uint32_t>(c.state.pc, to, "handler address after interrupt");
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], g[i], "interrupted instruction has no register effect");
  V_REQUIRE(refm::nlog == 0 && !c.state.store, "interrupted instruction has no memory effect");
}
