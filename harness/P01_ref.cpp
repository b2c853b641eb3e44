// P01: results of computational instructions, reference interpreter.
// ENTRY: ref_results 8
#include "refm.h"

extern "C" void ref_results(int part) {
  refm::model();
  for (int o = part * 8; o < part * 8 + 8 && o < isa::NCOMP; o++) {
    uint32_t w = (v_any<uint32_t>("inst") & ~isa::enc[o].mask) | isa::enc[o].match;
    // the carry-less products are analysed on two fixed source registers
    if (o == isa::CLMUL || o == isa::CLMULH || o == isa::CLMULR) w = (w & ~0x01ff8000u) | (5u << 15) | (6u << 20);
    static RefCpu c;
    refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c);
    uint32_t pc = c.state.pc;
    uint32_t want[32];
    for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
    uint32_t res = isa::result(o, w, pc, want[isa::rs1(w)], want[isa::rs2(w)]);
    for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = res;
    refm::step(c, w);
    for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule(i ? "reference registers after" : "reference zero register after", isa::name[o]));
    v_is<uint32_t>(c.state.pc, pc + 4, "reference continues at the next instruction");
    V_REQUIRE(refm::nlog == 0, "reference computational instruction leaves memory alone");
  }
}
