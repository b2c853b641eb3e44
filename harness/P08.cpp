// P08: interrupt recognition, delegation and request lines.
// ENTRY: dut_irq 2
// ENTRY: dut_lines
#include "priv.h"
#include "back-end/Exu/Csr.cpp"
static RobBroadcastIO bcast; static ExeCsrIO e2c; static CsrExeIO c2e; static RobCsrIO r2c; static CsrRobIO c2r; static CsrFrontIO c2f; static CsrStatusIO cst;
static void load(Csr &csr, const priv::S &s) {
  csr.in = {&e2c, &r2c, &bcast, nullptr}; csr.out = {&c2e, &c2r, &c2f, &cst};
  for (int i = 0; i < 21; i++) csr.CSR_RegFile[i] = s.csr[i];
  csr.privilege = s.priv; csr.csr_we = false; v_in(csr.csr_idx, "idx"); v_in(csr.csr_wdata, "wdata"); v_in(csr.csr_wcmd, "wcmd");
}
extern "C" void dut_irq(int level) {
  static Csr csr;
  priv::S s; priv::any(s); load(csr, s);
  v_in(c2r, "left");
  csr.comb_begin(); csr.comb_interrupt();
  bool m = priv::any_m(s), v = priv::any_s(s);
  V_REQUIRE((bool)c2r.interrupt_req == (m || v), "interrupt requested exactly when one is pending, enabled and admitted");
  V_ASSUME(level == 0 ? m : !m && v);
  r2c.interrupt_resp = true; bcast.pc = v_any<uint32_t>("pc"); bcast.trap_val = v_any<uint32_t>("tv"); bcast.flush = true;
  csr.comb_exception(); csr.comb_csr_write(); csr.seq();
  uint32_t cause = csr.CSR_RegFile[level == 0 ? priv::mcause : priv::scause], code = cause & 31;
  bool ok = (cause & 0x7fffffe0u) == 0 && (cause >> 31);
  if (level == 0) V_REQUIRE(ok && ((code == 3 && priv::m_irq(s, 3)) || (code == 7 && priv::m_irq(s, 7)) || (code == 11 && priv::m_irq(s, 11))), "recorded machine cause is an admitted interrupt");
  else V_REQUIRE(ok && ((code == 1 && priv::s_irq(s, 1)) || (code == 5 && priv::s_irq(s, 5)) || (code == 9 && priv::s_irq(s, 9))), "recorded supervisor cause is an admitted interrupt");
  priv::S t = s; uint32_t to = priv::enter(t, level == 1, true, cause & 0x7fffffffu, 0, bcast.pc);
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile[i], t.csr[i], v_rule(v_rule("after interrupt", level ? "supervisor" : "machine"), priv::name[i]));
  v_is<uint32_t>(csr.privilege, t.priv, "privilege after interrupt");
  v_is<uint32_t>(c2f.trap_pc, to, "handler address after interrupt");
}
// Request lines: every cycle the pending register follows them, in their own bits only.
extern "C" void dut_lines(int) {
  static Csr csr; static CsrInterruptInjectIO inj;
  priv::S s; priv::any(s); load(csr, s); csr.in.interrupt_inject = &inj;
  v_in(inj.external_irq_pending, "ext"); v_in(inj.timer_irq_pending, "tim"); v_in(inj.external_irq_pending_valid, "extv"); v_in(inj.timer_irq_pending_valid, "timv");
  bool e = inj.external_irq_pending, ev = inj.external_irq_pending_valid, t = inj.timer_irq_pending, tv = inj.timer_irq_pending_valid;
  csr.comb_begin(); csr.comb_interrupt(); csr.comb_exception(); csr.comb_csr_write(); csr.comb_interrupt_inject(); csr.seq();
  uint32_t mip = s.csr[priv::mip];
  if (ev) mip = e ? mip | 0x800u : mip & ~0x800u;
  if (tv) mip = t ? mip | 0x80u : mip & ~0x80u;
  s.csr[priv::mip] = mip; priv::alias(s);
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile[i], s.csr[i], v_rule("request lines", priv::name[i]));
  V_REQUIRE(!inj.external_irq_pending_valid && !inj.timer_irq_pending_valid, "a line sample is used once");
  v_is<uint32_t>(csr.privilege, s.priv, "request lines leave the privilege level alone");
}
