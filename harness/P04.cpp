// P04: bytes moved by loads and stores, pipeline-side helpers and I/O path.
// ENTRY: helpers 14
// ENTRY: io_path 8
// ENTRY: device_words 8
#include "vh.h"
#include "isa.h"
#include "config.h"
#include "IO.h"
#include "MemUtils.h"
#include "MemSubSystem/DcacheConfig.cpp"
#include "MemSubSystem/PeripheralAxi.cpp"
#include "PeripheralModel.h"
long long sim_time;

static uint32_t load_spec(uint32_t word, uint32_t off, uint32_t f3) {
  uint32_t b = word >> (8 * off);
  switch (f3) {
  case 0: return (uint32_t)(int32_t)(int8_t)b;
  case 1: return (uint32_t)(int32_t)(int16_t)b;
  case 4: return b & 0xff;
  case 5: return b & 0xffff;
  default: return word;
  }
}
// byte k of the word after a store of `size` bytes at offset `off`
static uint32_t store_spec(uint32_t old, uint32_t data, uint32_t off, uint32_t size) {
  uint32_t r = 0;
  for (uint32_t k = 0; k < 4; k++) {
    uint32_t byte = k >= off && k < off + size ? data >> (8 * (k - off)) : old >> (8 * k);
    r |= (byte & 0xff) << (8 * k);
  }
  return r;
}
static const uint32_t forms[] = {0, 1, 2, 4, 5};
static uint32_t any_access(uint32_t &addr, int form) {
  uint32_t f3 = forms[form];
  addr = v_any<uint32_t>("addr") & ~((1u << (f3 & 3)) - 1);
  return f3;
}
extern "C" void helpers(int part) {
  uint32_t addr, f3;
  if (part < 5) {
    f3 = any_access(addr, part);
    uint32_t w = v_any<uint32_t>("word");
    v_is<uint32_t>(extract_data(w, addr, f3), load_spec(w, addr & 3, f3), "load extraction");
  } else if (part < 8) {
    f3 = any_access(addr, part - 5);
    uint32_t old = v_any<uint32_t>("word"), d = v_any<uint32_t>("data"), got = old;
    apply_strobe(got, align_store_data(d, addr, f3), get_store_strb(addr, f3));
    v_is<uint32_t>(got, store_spec(old, d, addr & 3, 1u << (f3 & 3)), "aligned data, strobe and merge give the stored word");
  } else if (part == 8) { // arbitrary strobes
    uint32_t old = v_any<uint32_t>("word"), d = v_any<uint32_t>("data"), got = old;
    uint8_t s = v_any<uint8_t>("strobe"); V_ASSUME(s < 16);
    apply_strobe(got, d, s);
    for (int k = 0; k < 4; k++) v_is<uint8_t>((uint8_t)(got >> (8 * k)), (uint8_t)(((s >> k) & 1 ? d : old) >> (8 * k)), "merge follows the strobe");
  } else if (part < 14) { // a store then a load
    f3 = any_access(addr, part - 9);
    uint32_t old = v_any<uint32_t>("word"), d = v_any<uint32_t>("data");
    uint32_t w = old;
    apply_strobe(w, align_store_data(d, addr, f3 & 3), get_store_strb(addr, f3 & 3));
    v_is<uint32_t>(extract_data(w, addr, f3), load_spec(d, 0, f3), "a load returns what was stored");
  }
}
extern "C" void io_path(int part) {
  static PeripheralAxi p; static PeripheralReqIO rq; static PeripheralRespIO rs;
  p.peripheral_req = &rq; p.peripheral_resp = &rs;
  bool load = part < 5;
  uint32_t addr, f3 = any_access(addr, load ? part : part - 5);
  v_in(rq, "req");
  rq.is_mmio = true; rq.mmio_addr = addr; rq.mmio_fun3 = f3; rq.wen = !load;
  uint32_t d = rq.mmio_wdata;
  p.init();
  p.comb_inputs(); p.seq(); p.comb_outputs();
  uint32_t size = 1u << (f3 & 3);
  if (load) {
    V_REQUIRE(p.out.read.req_valid && !p.out.write.req_valid, "I/O load is sent as a read");
    v_is<uint32_t>(p.out.read.req_addr, addr, "I/O read address"); v_is<uint32_t>(p.out.read.req_total_size + 1u, size, "I/O read size");
    v_in(p.in, "bus"); p.in.read.req_accepted = true; p.comb_inputs(); p.seq();
    v_in(p.in, "bus2"); p.in.read.resp_valid = true; p.comb_inputs(); p.seq(); p.comb_outputs();
    V_REQUIRE(rs.is_mmio && rs.ready, "I/O load completes");
    // the bus returns the addressed bytes in the low lanes
    v_is<uint32_t>(rs.mmio_rdata, load_spec(p.in.read.resp_data[0], 0, f3), "I/O load extension");
  } else {
    V_REQUIRE(p.out.write.req_valid && !p.out.read.req_valid, "I/O store is sent as a write");
    v_is<uint32_t>(p.out.write.req_addr, addr, "I/O write address"); v_is<uint32_t>(p.out.write.req_total_size + 1u, size, "I/O write size");
    v_is<uint64_t>(p.out.write.req_wstrb, (1ull << size) - 1, "I/O write strobe");
    for (uint32_t k = 0; k < 4; k++) if (k < size) v_is<uint8_t>((uint8_t)(p.out.write.req_wdata[0] >> (8 * k)), (uint8_t)(d >> (8 * k)), "I/O write data");
  }
}
static uint32_t wa, wd, wn;
static uint32_t m_read(uint32_t a) { uint32_t v = (uint32_t)__v_uf("iomem", 32, a & ~3u); if (wn && ((wa ^ a) & ~3u) == 0) v = wd; return v; }
static void m_write(uint32_t a, uint32_t d) { wa = a; wd = d; wn++; }
extern "C" void device_words(int part) {
  __v_model("pmem_read", (void *)m_read); __v_model("pmem_write", (void *)m_write);
  static PeripheralModel m; static CsrInterruptInjectIO inj; static uint32_t backing;
  m.csr_interrupt_inject = &inj; m.memory = &backing;
  bool load = part < 5;
  uint32_t addr, f3 = any_access(addr, load ? part : part - 5);
  // plain storage words of the interrupt controller, away from its claim register
  addr = PLIC_ADDR_BASE | (addr & 0xfffff);
  uint32_t old = m_read(addr);
  if (load) v_is<uint32_t>(m.read_load(addr, f3), load_spec(old, addr & 3, f3), "device word load");
  else {
    uint32_t d = v_any<uint32_t>("data");
    m.on_commit_store(addr, d, f3);
    V_REQUIRE(wn == 1 && ((wa ^ addr) & ~3u) == 0, "device store writes its word once");
    v_is<uint32_t>(wd, store_spec(old, d, addr & 3, 1u << (f3 & 3)), "device word store");
  }
}
