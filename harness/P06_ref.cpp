// P06: CSR instructions in the reference interpreter.
// ENTRY: ref_csr 44
#include "refm.h"
#include "priv.h"
extern "C" void ref_csr(int part) {
  refm::model();
  bool immf = part % 2; int k = part / 2;
  static RefCpu c;
  refm::any_state(c); refm::no_translation(c);
  uint32_t w = (v_any<uint32_t>("inst") & 0x000fbf80u) | 0x73 | (immf ? 0x4000u : 0);
  V_ASSUME(((w >> 12) & 3) != 0);
  if (k < 21) w |= priv::num[k] << 20;
  else { // any other number except the trapping time registers
    w |= v_any<uint32_t>("csrno") << 20; uint32_t n = w >> 20;
    for (uint32_t x : priv::num) V_ASSUME(n != x);
    V_ASSUME(n != 0xc01 && n != 0xc81);
  }
  // fixed register numbers in the register form keep the value graph small; the immediate form leaves them open
  if (!immf) w = (w & ~0x000f8000u) | (v_any<bool>("src_is_x0") ? 0 : 9u << 15);
  priv::S s; for (int i = 0; i < 21; i++) s.csr[i] = c.state.csr[i];
  bool tick = (uint64_t)sim_time + g_ref_timer_offset >= g_ref_timer_cmp;
  s.csr[priv::mip] = (s.csr[priv::mip] & ~0x80u) | (tick ? 0x80u : 0);
  s.csr[priv::mie] = 0; // no interrupt is taken
  priv::alias(s); s.priv = c.privilege;
  for (int i = 0; i < 21; i++) c.state.csr[i] = s.csr[i];
  if (k == priv::mie) { s.csr[priv::mie] = c.state.csr[priv::mie] = v_any<uint32_t>("mie"); priv::alias(s); c.state.csr[priv::sie] = s.csr[priv::sie]; V_ASSUME(!priv::any_m(s) && !priv::any_s(s)); }
  uint32_t pc = c.state.pc, want[32];
  for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
  uint32_t a = want[isa::rs1(w)];
  if (k < 21) { for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = s.csr[k]; }
  priv::S t = s;
  if (k < 21) priv::access(t, k, (w >> 12) & 7, immf ? isa::rs1(w) : a, isa::rs1(w) == 0);
  refm::step(c, w);
  const char *nm = k < 21 ? priv::name[k] : "unknown register";
  for (int i = 0; i < 21; i++) v_is<uint32_t>(c.state.csr[i], t.csr[i], v_rule(v_rule("after access to", nm), priv::name[i]));
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule("registers after access to", nm));
  v_is<uint32_t>(c.state.pc, pc + 4, "continues at the next instruction");
  v_is<uint32_t>(c.privilege, s.priv, "privilege unchanged");
}
