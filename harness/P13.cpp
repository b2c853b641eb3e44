// P13: word memories of the reference interpreter and of the machine.
// ENTRY: mem_rw 250
// FLAGS: -I$VERIF/harness/stubmap
#include "vh.h"
#include "diff/ref.cpp"
#include "back-end/PhysMemory.cpp"
long long sim_time;
void push_oracle_timer(uint32_t) {}
// windows around the edges of RAM, the I/O space and the ends of the address space; low bits unknown
static const uint32_t win[5] = {0x80000000u, 0x7fffffe0u, 0xbfffffe0u, 0xc0000000u, 0xffffffe0u};
extern "C" void mem_rw(int part) {
  __v_ub(1); __v_noexit(1);
  bool ref = part >= 125; int wa = part % 25 / 5, wb = part % 5;
  static const uint32_t pos[5][3] = {{0, 4, 28}, {28, 28, 0}, {4, 0, 0}, {28, 0, 28}, {4, 4, 4}};   // which of the three words coincide
  uint32_t pa = pos[part % 125 / 25][0], pb = pos[part % 125 / 25][1], pc = pos[part % 125 / 25][2];
  {
    uint32_t a = win[wa] | pa | (v_any<uint32_t>("a") & 3), b = win[wb] | pb | (v_any<uint32_t>("b") & 3), c = win[wb] | pc | (v_any<uint32_t>("c") & 3);
    uint32_t x = v_any<uint32_t>("x"), y = v_any<uint32_t>("y"), got;
    static RefCpu r;
    if (ref) { r.init(0x80000000u); r.store_word(c, x); r.store_word(a, y); got = r.load_word(b); }
    else { V_REQUIRE(pmem_init(), "memory is created"); pmem_write(c, x); pmem_write(a, y); got = pmem_read(b); }
    uint32_t want = (a >> 2) == (b >> 2) ? y : (c >> 2) == (b >> 2) ? x : 0;
    v_is<uint32_t>(got, want, ref ? "reference memory: a word read is the last word written there" : "physical memory: a word read is the last word written there");
    bool ram = a >= 0x80000000u && a < 0xc0000000u;
    if (!ref) V_REQUIRE(pmem_is_ram_addr(a & ~3u, 4) == ram, "RAM window is recognised exactly");
  }
}
// Bulk copies and range checks: exactly the addressed bytes, never outside RAM.
// ENTRY: mem_bulk 12
extern "C" void mem_bulk(int part) {
  __v_ub(1);
  static const uint32_t at[4] = {0x80000000u, 0x80000003u, 0xbffffff8u, 0xbffffffbu}; static const size_t len[3] = {1, 5, 9};
  uint32_t base = at[part % 4]; size_t n = len[part / 4];
  static uint8_t src[16], dst[16]; v_in(src, "src");
  pmem_init();
  bool fits = (uint64_t)base + n <= 0xc0000000ull;
  V_REQUIRE(pmem_is_ram_addr(base, (uint32_t)n) == fits, "range inside RAM is recognised exactly");
  if (!fits) { pmem_memcpy_to_ram(base, src, n); V_REQUIRE(false, "copy past the end of RAM is refused"); return; }
  pmem_memcpy_to_ram(base, src, n);
  pmem_memcpy_from_ram(dst, base, n);
  for (size_t i = 0; i < n; i++) { v_is<uint8_t>(dst[i], src[i], "bytes copied to RAM are read back"); uint32_t p = base + i; v_is<uint8_t>((uint8_t)(pmem_read(p) >> (8 * (p & 3))), src[i], "bytes copied to RAM appear at their addresses"); }
  if (base > 0x80000000u) v_is<uint8_t>((uint8_t)(pmem_read(base - 1) >> (8 * ((base - 1) & 3))), 0, "byte before the copy unchanged");
  if ((uint64_t)base + n < 0xc0000000ull) { uint32_t p = base + n; v_is<uint8_t>((uint8_t)(pmem_read(p) >> (8 * (p & 3))), 0, "byte after the copy unchanged"); }
}
