// P05: atomic operations, reference interpreter.
// ENTRY: ref_amo 22
#include "refm.h"
static const uint32_t f5[] = {0, 1, 4, 8, 12, 16, 20, 24, 28, 2, 3};
static const char *const nm[] = {"amoadd", "amoswap", "amoxor", "amoor", "amoand", "amomin", "amomax", "amominu", "amomaxu", "lr", "sc"};
static uint32_t combine(uint32_t f, uint32_t old, uint32_t b) {
  switch (f) {
  case 0: return old + b;
  case 1: return b;
  case 4: return old ^ b;
  case 8: return old | b;
  case 12: return old & b;
  case 16: return (int32_t)old < (int32_t)b ? old : b;
  case 20: return (int32_t)old < (int32_t)b ? b : old;
  case 24: return old < b ? old : b;
  default: return old < b ? b : old;
  }
}
extern "C" void ref_amo(int part) {
  refm::model();
  uint32_t f = f5[part % 11]; const char *name = nm[part % 11];
  uint32_t w = (v_any<uint32_t>("inst") & 0x07ff8f80u) | 0x202f | (f << 27);
  if (f == 2) w &= ~0x01f00000u;
  static RefCpu c;
  refm::any_state(c); refm::no_interrupts(c); refm::no_translation(c);
  uint32_t addr = (v_any<uint32_t>("address") | 0x80000000u) & ~3u;
  // parts 0-10: fixed registers; 11-21: every combination of distinct or equal registers
  if (part < 11) { w = (w & ~0x000f8f80u & (f == 2 ? ~0u : ~0x01f00000u)) | (5u << 15) | (7u << 7) | (f == 2 ? 0 : 6u << 20); c.state.gpr[5] = addr; }
  uint32_t want[32], pc = c.state.pc;
  for (int i = 0; i < 32; i++) want[i] = c.state.gpr[i];
  if (part >= 11) { addr = want[isa::rs1(w)]; V_ASSUME(addr >= 0x80000000u && (addr & 3) == 0); }
  uint32_t old = refm::initial(addr), b = want[isa::rs2(w)];
  bool rv = c.state.reserve_valid; uint32_t rad = c.state.reserve_addr;
  bool ok = rv && rad == addr;
  uint32_t res = f == 3 ? (ok ? 0 : 1) : old;
  for (int i = 1; i < 32; i++) if (isa::rd(w) == (uint32_t)i) want[i] = res;
  refm::step(c, w);
  for (int i = 0; i < 32; i++) v_is<uint32_t>(c.state.gpr[i], want[i], v_rule("registers after", name));
  v_is<uint32_t>(c.state.pc, pc + 4, "continues at the next instruction");
  bool writes = f == 3 ? ok : f != 2;
  v_is<uint32_t>(refm::nlog, writes ? 1 : 0, v_rule("number of memory writes", name));
  v_is<bool>(c.state.store, writes, v_rule("store reported", name));
  if (writes) {
    v_is<uint32_t>(refm::laddr[0] & ~3u, addr, v_rule("stored address", name));
    v_is<uint32_t>(refm::ldata[0], f == 3 ? b : combine(f, old, b), v_rule("stored word", name));
    v_is<uint32_t>(c.state.store_addr, addr, v_rule("reported address", name)); v_is<uint32_t>(c.state.store_data, f == 3 ? b : combine(f, old, b), v_rule("reported word", name));
  }
  if (f == 3) V_REQUIRE(!c.state.reserve_valid, "store-conditional ends the reservation");
  else if (f == 2) { V_REQUIRE(c.state.reserve_valid, "load-reserved holds a reservation"); v_is<uint32_t>(c.state.reserve_addr, addr, "reserved address"); }
  else if (rad == addr) V_REQUIRE(!c.state.reserve_valid, "a store to the reserved word ends the reservation");
  else { v_is<bool>(c.state.reserve_valid, rv, "a store elsewhere keeps the reservation"); v_is<uint32_t>(c.state.reserve_addr, rad, "a store elsewhere keeps the reserved address"); }
}
