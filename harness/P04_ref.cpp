// P04: bytes moved by loads and stores in the reference interpreter.
// ENTRY: ref_mem 16
#include "refm.h"

extern "C" void ref_mem(int part) {
  refm::model();
  int o = isa::LB + part % 8;
  bool load = o <= isa::LHU;
  uint32_t w = (v_any<uint32_t>("inst") & ~isa::enc[o].mask) | isa::enc[o].match;
  // parts 0-7 name fixed registers (settled completely), 8-15 leave every register number open
  if (part < 8) w = (w & (load ? ~0x000f8f80u : ~0x01ff8000u)) | (5u << 15) | (load ? 7u << 7 : 6u << 20);
  static RefCpu c;
  refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c);
  uint32_t pc = c.state.pc, want[32];
  for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
  uint32_t addr = want[isa::rs1(w)] + (load ? isa::immI(w) : isa::immS(w)), d = want[isa::rs2(w)];
  uint32_t size = o == isa::LB || o == isa::LBU || o == isa::SB ? 1 : o == isa::LW || o == isa::SW ? 4 : 2;
  if (part < 8) { uint32_t t = (v_any<uint32_t>("address") | 0x80000000u) & ~(size - 1); c.state.gpr[5] = want[5] = t - (load ? isa::immI(w) : isa::immS(w)); addr = t; }
  else V_ASSUME(addr >= 0x80000000u && (addr & (size - 1)) == 0);
  V_ASSUME(!c.state.reserve_valid || c.state.reserve_addr != addr || load);
  uint32_t old = refm::initial(addr), x = old >> (8 * (addr & 3));
  if (load) {
    uint32_t v = o == isa::LB ? (uint32_t)(int32_t)(int8_t)x : o == isa::LH ? (uint32_t)(int32_t)(int16_t)x : o == isa::LBU ? x & 0xff : o == isa::LHU ? x & 0xffff : old;
    for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = v;
  }
  bool rv = c.state.reserve_valid;
  refm::step(c, w);
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule("reference registers after", isa::name[o]));
  v_is<uint32_t>(c.state.pc, pc + 4, "reference continues at the next instruction");
  if (load) { V_REQUIRE(refm::nlog == 0, "reference load leaves memory alone"); V_REQUIRE(!c.state.store, "reference load reports no store"); }
  else {
    V_REQUIRE(refm::nlog == 1, "reference store writes one word");
    V_REQUIRE(((refm::laddr[0] ^ addr) & ~3u) == 0, "reference store address");
    uint32_t r = 0;
    for (uint32_t k = 0; k < 4; k++) { uint32_t off = addr & 3, b = k >= off && k < off + size ? d >> (8 * (k - off)) : old >> (8 * k); r |= (b & 0xff) << (8 * k); }
    v_is<uint32_t>(refm::ldata[0], r, v_rule("reference stored word", isa::name[o]));
    V_REQUIRE(c.state.store, "reference reports the store"); v_is<uint32_t>(c.state.store_addr, addr, "reported store address");
    for (uint32_t k = 0; k < size; k++) v_is<uint8_t>((uint8_t)(c.state.store_data >> (8 * ((addr & 3) + k))), (uint8_t)(d >> (8 * k)), "reported store data");
  }
  v_is<bool>(c.state.reserve_valid, rv, "unrelated access keeps the reservation");
}
