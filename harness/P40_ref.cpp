// P40: single-precision instructions on the reference interpreter.
// ENTRY: interpreter 22
// ENTRY: refused 1
#include "refm.h"
#include "fp.h"
static uint32_t field(const char *n) { return v_any<uint32_t>(n) & 31; }
extern "C" void interpreter(int o) {
  refm::model(); fp::model(); fp::Enc e = fp::enc(o);
  for (int ka = -1; ka < (fp::by_kind(o) ? fp::KINDS : 0); ka++) for (int kb = ka < 0 ? -1 : 0; kb < (ka < 0 ? 0 : fp::KINDS + 2); kb++) for (uint32_t rm = 0; rm < 8; rm++) {
    if (rm == 5 || rm == 6 || (!e.rm && rm)) continue;
    // operands from any of three registers each, including the same one and the zero register; any destination
    for (uint32_t k = 0; k < (ka < 0 ? 4 : 1); k++) {
      uint32_t w = (v_any<uint32_t>("inst") & ~e.mask & ~0xf80f8000u & ~0x01f00000u) | e.match, r1 = k == 3 ? 0 : 5 + k, r2 = k == 1 ? r1 : 9, r3 = k == 2 ? r1 : 17; w |= r1 << 15; if (!(e.mask >> 20 & 1)) w |= r2 << 20; if (o >= fp::MADD) w |= r3 << 27; if (e.rm) w = (w & ~0x7000u) | rm << 12;
      static RefCpu c; refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c); if (ka >= 0) { c.state.gpr[r1] = fp::pattern(ka, "first"); c.state.gpr[r2] = kb >= fp::KINDS ? (kb & 1 ? c.state.gpr[r1] ^ 0x80000000u : c.state.gpr[r1]) : fp::pattern(kb, "second"); w = (w & ~0xf80u) | (kb % 3 ? 12u : r1) << 7; } softfloat_roundingMode = v_any<uint8_t>("old_mode") & 7; uint32_t pc = c.state.pc, want[32]; for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
      uint32_t res = fp::result(o, want[r1], want[r2], want[r3], fp::mode_of(rm)); for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = res;
      refm::step(c, w); for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule("reference registers after", fp::NAME[o])); v_is<uint32_t>(c.state.pc, pc + 4, "reference continues at the next instruction"); V_REQUIRE(refm::nlog == 0, "a floating-point instruction leaves memory alone");
    }
  }
}
// encodings that name no operation or no rounding mode leave registers alone and raise an illegal-instruction trap
extern "C" void refused(int) {
  refm::model(); fp::model();
  for (uint32_t f7 = 0; f7 < 128; f7 += 4) for (uint32_t f3 = 0; f3 < 8; f3++) for (uint32_t r2 = 0; r2 < 3; r2++) {
    bool known = false; for (int o = 0; o < fp::MADD; o++) { fp::Enc e = fp::enc(o); uint32_t w = f7 << 25 | f3 << 12 | r2 << 20 | 0x53; if ((w & e.mask) == e.match && (!e.rm || (f3 != 5 && f3 != 6))) known = true; }
    if (known || (f7 == 0x70 && f3 == 1)) continue; // the classification's second source field is not examined
    uint32_t w = f7 << 25 | f3 << 12 | r2 << 20 | 5u << 15 | 6u << 7 | 0x53; static RefCpu c; refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c); uint32_t old[32]; for (int i = 0; i < 32; i++) old[i] = c.state.gpr[i];
    c.privilege = 3; refm::step(c, w); for (int i = 1; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], old[i], "an undefined floating-point encoding writes no register"); v_is<uint32_t>(c.state.csr[csr_mcause], 2, "an undefined floating-point encoding is an illegal instruction");
  }
}
