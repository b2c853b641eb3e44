// P03: branches and jumps in the reference interpreter.
// ENTRY: ref_branch 8
#include "refm.h"

extern "C" void ref_branch(int part) {
  refm::model();
  int o = isa::JAL + part;
  uint32_t w = (v_any<uint32_t>("inst") & ~isa::enc[o].mask) | isa::enc[o].match;
  static RefCpu c;
  refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c);
  uint32_t pc = c.state.pc, want[32];
  for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
  uint32_t a = want[isa::rs1(w)], b = want[isa::rs2(w)];
  uint32_t next = o == isa::JAL ? pc + isa::immJ(w) : o == isa::JALR ? (a + isa::immI(w)) & ~1u : isa::taken(o, a, b) ? pc + isa::immB(w) : pc + 4;
  if (o == isa::JAL || o == isa::JALR) for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = pc + 4;
  refm::step(c, w);
  v_is<uint32_t>(c.state.pc, next, v_rule("reference next address", isa::name[o]));
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule("reference registers after", isa::name[o]));
  V_REQUIRE(refm::nlog == 0, "reference branch leaves memory alone");
  V_REQUIRE(!c.state.store, "reference branch reports no store");
}
