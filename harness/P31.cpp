// P31: devices change only by retired stores and time; interrupt lines follow device state; transfers stay inside RAM.
// FLAGS: -I$VERIF/harness/stubmap
// ENTRY: device_reads 21
// ENTRY: device_stores 26
// ENTRY: device_time 8
// ENTRY: device_transfer 40
// ENTRY: device_port 24
#include "vh.h"
#include "back-end/PhysMemory.cpp"
#include "MemSubSystem/PeripheralAxi.cpp"
long long sim_time;
enum { UART = 0x10000000, LCR = 0x10000001, CLAIM = 0x0c201004, TLO = 0x1fd0e000, THI = 0x1fd0e004, CLO = 0x1fd0e008, CHI = 0x1fd0e00c, DSRC = 0x1fd0f000, DDST = 0x1fd0f004, DLEN = 0x1fd0f008, DCTL = 0x1fd0f00c, DSTA = 0x1fd0f010 };
static PeripheralModel dev; static CsrInterruptInjectIO lines; static const uint32_t words[6] = {UART, UART + 4, CLAIM, 0x0c000000u, 0x80000000u, 0x1fd0e010u};
// what a program can see of the devices
struct View { uint32_t w[6]; uint64_t timer, cmp; uint32_t src, dst, len, ctl, sta; bool tv, t, ev, e, uart, dma; };
static View now;
static void begin() {
  __v_ub(1); __v_noexit(1); pmem_init(); sim_time = v_any<uint32_t>("time"); dev = {}; dev.bind(&lines, p_memory); v_in(lines, "lines"); v_in(dev.timer_offset_, "offset"); v_in(dev.timer_cmp_, "cmp"); v_in(dev.dma_src_, "src"); v_in(dev.dma_dst_, "dst"); v_in(dev.dma_len_, "len"); v_in(dev.dma_ctrl_, "ctl"); v_in(dev.dma_status_, "sta"); v_in(dev.uart_irq_pending_, "uart"); v_in(dev.dma_irq_pending_, "dma");
  for (int i = 0; i < 6; i++) pmem_write(words[i], v_any<uint32_t>(v_name("word", i)));
}
static View look() { View v; for (int i = 0; i < 6; i++) v.w[i] = pmem_read(words[i]); v.timer = sim_time + dev.timer_offset_; v.cmp = dev.timer_cmp_; v.src = dev.dma_src_; v.dst = dev.dma_dst_; v.len = dev.dma_len_; v.ctl = dev.dma_ctrl_; v.sta = dev.dma_status_; v.tv = lines.timer_irq_pending_valid; v.t = lines.timer_irq_pending; v.ev = lines.external_irq_pending_valid; v.e = lines.external_irq_pending; v.uart = dev.uart_irq_pending_; v.dma = dev.dma_irq_pending_; return v; }
static uint32_t piece(uint32_t w, uint32_t a, int f3) { uint32_t v = w >> 8 * (a & 3); return f3 == 0 ? (uint32_t)(int32_t)(int8_t)v : f3 == 1 ? (uint32_t)(int32_t)(int16_t)v : f3 == 4 ? v & 0xff : f3 == 5 ? v & 0xffff : v; }
static uint32_t peek(uint32_t a, int f3) { switch (a) { case TLO: return (uint32_t)now.timer; case THI: return (uint32_t)(now.timer >> 32); case CLO: return (uint32_t)now.cmp; case CHI: return (uint32_t)(now.cmp >> 32); case DSRC: return now.src; case DDST: return now.dst; case DLEN: return now.len; case DCTL: return now.ctl; case DSTA: return now.sta; } for (int i = 0; i < 6; i++) if ((a & ~3u) == words[i]) return piece(now.w[i], a, f3); return 0; }
static const struct { uint32_t a; int f3; } reads[21] = {{TLO, 2}, {THI, 2}, {CLO, 2}, {CHI, 2}, {DSRC, 2}, {DDST, 2}, {DLEN, 2}, {DCTL, 2}, {DSTA, 2}, {UART, 0}, {UART, 4}, {UART + 1, 4}, {UART + 2, 5}, {UART + 2, 1}, {UART + 5, 0}, {UART + 5, 4}, {UART + 3, 0}, {CLAIM, 2}, {CLAIM, 4}, {0x0c000000u, 2}, {0x1fd0e010u, 2}};
extern "C" void device_reads(int part) {
  begin(); now = look(); uint32_t got = dev.read_load(reads[part].a, reads[part].f3); v_is<uint32_t>(got, peek(reads[part].a, reads[part].f3), "a device register reads as its current value"); v_eq<View>(look(), now, "reading a device changes nothing");
  // a RAM address is no device
  V_REQUIRE(!PeripheralModel::is_modeled_mmio(0x80000000u) && !PeripheralModel::is_modeled_mmio(UART - 1) && !PeripheralModel::is_modeled_mmio(TLO - 1) && !PeripheralModel::is_modeled_mmio(UART + 0x100) && PeripheralModel::is_modeled_mmio(UART + 0xff) && !PeripheralModel::is_modeled_mmio(DSRC + 0x100) && !PeripheralModel::is_modeled_mmio(0x0c210000u) && PeripheralModel::is_modeled_mmio(0x0c20ffffu) && PeripheralModel::is_modeled_mmio(reads[part].a), "devices are recognised by address");
}
static const struct { uint32_t a; int f3; } stores[26] = {{TLO, 2}, {THI, 2}, {CLO, 2}, {CHI, 2}, {DSRC, 2}, {DDST, 2}, {DLEN, 2}, {DCTL, 2}, {DSTA, 2}, {UART, 0}, {UART, 2}, {LCR, 0}, {LCR, 0}, {LCR, 0}, {UART + 2, 1}, {UART + 3, 0}, {UART + 4, 0}, {UART + 5, 0}, {CLAIM, 2}, {CLAIM, 2}, {CLAIM, 2}, {CLAIM, 0}, {0x0c000000u, 2}, {0x1fd0e010u, 2}, {0x80000000u, 2}, {0x1fb00000u, 2}};
extern "C" void device_stores(int part) {
  begin(); uint32_t a = stores[part].a, d = v_any<uint32_t>("data"); int f3 = stores[part].f3;
  if (a == DCTL) d &= ~1u; if (part == 11) d = 7; if (part == 12) d = 5; if (part == 13) { d &= 0xff; V_ASSUME(d != 7 && d != 5); } if (part == 18) d = 10; if (part == 19) d = 11; if (part == 20) V_ASSUME((d & 0xff) != 10 && (d & 0xff) != 11); if (part == 21) d = 0xaa0b;
  now = look(); dev.on_commit_store(a, d, f3); View w = now; auto timer_line = [&] { w.tv = 1; w.t = w.timer >= w.cmp; }; auto outside_line = [&] { uint32_t id = w.dma ? 11 : w.uart ? 10 : 0; w.w[2] = id; w.ev = 1; w.e = id != 0; };
  auto put = [&](uint32_t data) { uint32_t m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : 0xffffffffu) << 8 * (a & 3); for (int i = 0; i < 6; i++) if ((a & ~3u) == words[i]) w.w[i] = (w.w[i] & ~m) | (data << 8 * (a & 3) & m); };
  switch (a) {
  case TLO: w.timer = (w.timer & 0xffffffff00000000ull) | d; timer_line(); break; case THI: w.timer = (w.timer & 0xffffffffull) | (uint64_t)d << 32; timer_line(); break;
  case CLO: w.cmp = (w.cmp & 0xffffffff00000000ull) | d; timer_line(); break; case CHI: w.cmp = (w.cmp & 0xffffffffull) | (uint64_t)d << 32; timer_line(); break;
  case DSRC: w.src = d; break; case DDST: w.dst = d; break; case DLEN: w.len = d; break; case DCTL: w.ctl = d & 2; break; case DSTA: w.sta &= ~d; break;
  case UART: put(d); w.w[0] &= 0xffffff00u; break; // a character leaves at once
  case LCR: put(d); if (d == 7) { w.w[0] &= 0xfff0ffffu; w.uart = true; outside_line(); } else if (d == 5) w.w[0] = (w.w[0] & 0xfff0ffffu) | 0x30000u; break;
  case CLAIM: put(d); if ((d & 0xff) == 10) w.uart = false; if ((d & 0xff) == 11) w.dma = false; outside_line(); break;
  case 0x80000000u: case 0x1fb00000u: break; // not one of the modelled devices
  default: put(d);
  }
  v_eq<View>(look(), w, "a retired store changes exactly the register it addresses");
}
extern "C" void device_time(int part) {
  begin(); dev.uart_irq_pending_ = part & 1; dev.dma_irq_pending_ = part & 2; if (part & 4) sim_time = -1 - part; now = look(); uint64_t t = (part & 4 ? 0 : sim_time) + dev.timer_offset_; dev.tick(); View w = now; w.tv = 1; w.t = t >= w.cmp; w.w[2] = w.dma ? 11 : w.uart ? 10 : 0; w.ev = 1; w.e = w.dma || w.uart; v_eq<View>(look(), w, "interrupt lines are asserted exactly while their condition holds");
  V_REQUIRE(dev.timer_irq_level() == (t >= w.cmp), "interrupt lines are asserted exactly while their condition holds");
}
// transfers: overlapping, at both ends of RAM, empty, beyond RAM, into devices
static uint32_t told_at; static size_t told_len; static int told;
static void hook(uint32_t a, size_t n) { told++; told_at = a; told_len = n; }
static const struct { uint32_t s, d, n; bool ok; } moves[20] = {{0x80000000u, 0x80000040u, 16, true}, {0x80000003u, 0x80000021u, 7, true}, {0x80000010u, 0x80000014u, 12, true}, {0x80000014u, 0x80000010u, 12, true}, {0x80000010u, 0x80000010u, 8, true}, {0xbffffff0u, 0x80000000u, 16, true}, {0x80000000u, 0xbffffff0u, 16, true}, {0x80000000u, 0x80000100u, 1, true}, {0x80000000u, 0x80000040u, 0, false}, {0xbffffff0u, 0x80000000u, 17, false}, {0x80000000u, 0xbffffff0u, 17, false}, {0x7ffffffcu, 0x80000000u, 8, false}, {0x80000000u, 0x7ffffffcu, 8, false}, {0x80000000u, 0x10000000u, 4, false}, {0x10000000u, 0x80000000u, 4, false}, {0x80000000u, 0xc0000000u, 4, false}, {0xc0000000u, 0x80000000u, 4, false}, {0x80000000u, 0x80000004u, 0xffffffffu, false}, {0xfffffff0u, 0x80000000u, 32, false}, {0x80000000u, 0xfffffff0u, 32, false}};
extern "C" void device_transfer(int part) {
  begin(); auto &m = moves[part % 20]; bool irq = part / 20; static uint8_t src[20], before[20]; told = 0; dev.set_ram_sync_hook(hook); dev.uart_irq_pending_ = false; dev.dma_irq_pending_ = false; dev.dma_src_ = m.s; dev.dma_dst_ = m.d; dev.dma_len_ = m.n;
  auto at = [](uint32_t p) { return (uint8_t)(pmem_read(p) >> 8 * (p & 3)); };
  if (m.ok) { for (uint32_t p = m.d & ~3u; p < m.d + m.n; p += 4) pmem_write(p, v_any<uint32_t>(v_name("old", p & 0xfff))); for (uint32_t p = m.s & ~3u; p < m.s + m.n; p += 4) pmem_write(p, v_any<uint32_t>(v_name("new", p & 0xfff))); for (uint32_t i = 0; i < m.n; i++) src[i] = at(m.s + i); }
  uint8_t lo = at(m.d - 1), hi = m.n < 100 ? at(m.d + m.n) : 0; now = look(); dev.on_commit_store(DCTL, irq ? 3 : 1, 2); View w = now; w.ctl = irq ? 2 : 0; w.sta = m.ok ? 2 : 4; if (m.ok && irq) { w.dma = true; w.w[2] = 11; w.ev = 1; w.e = 1; }
  if (m.ok) { for (uint32_t i = 0; i < m.n; i++) v_is<uint8_t>(at(m.d + i), src[i], "a transfer copies the bytes its source held"); v_is<uint8_t>(at(m.d - 1), lo, "a transfer writes nothing else"); v_is<uint8_t>(at(m.d + m.n), hi, "a transfer writes nothing else"); V_REQUIRE(told == 1 && told_at == m.d && told_len == m.n, "a transfer is announced with its range"); } else V_REQUIRE(told == 0, "a refused transfer touches no memory");
  View got = look(); if (m.ok && m.d == 0x80000000u) got.w[4] = w.w[4]; v_eq<View>(got, w, m.ok ? "a finished transfer sets its status and interrupt" : "a refused transfer reports an error only");
}
// the port between the core and the devices
static PeripheralReqIO req; static PeripheralRespIO resp; static PeripheralAxi port;
extern "C" void device_port(int part) {
  begin(); port.peripheral_req = &req; port.peripheral_resp = &resp; port.peripheral_model = &dev; port.init(); uint32_t dice = part * 77777u + 5; auto roll = [&](uint32_t n) { dice = dice * 1664525u + 1013904223u; return (dice >> 16) % n; };
  for (int k = 0; k < 8; k++) {
    auto &t = reads[roll(21)]; bool modelled = roll(2), wr = roll(3) == 0; uint32_t a = modelled ? t.a : 0x1fb00000u + 4 * roll(4); int f3 = modelled ? t.f3 : (roll(2) ? 2 : wr ? roll(2) : 4 * roll(2) + roll(2)); uint32_t d = v_any<uint32_t>(v_name("wdata", k)); now = look(); uint32_t want = peek(a, f3);
    for (int idle = roll(3); idle-- > 0;) { req = {}; port.in = {}; port.comb_outputs(); V_REQUIRE(resp.ready && !resp.is_mmio && !port.out.read.req_valid && !port.out.write.req_valid && !port.out.read.resp_ready && !port.out.write.resp_ready, "an idle port does nothing"); port.comb_inputs(); port.seq(); }
    req = {}; req.is_mmio = 1; req.wen = wr; req.mmio_addr = a; req.mmio_wdata = d; req.mmio_fun3 = f3; port.in = {}; port.comb_outputs(); V_REQUIRE(resp.ready, "a finished access makes room for the next"); port.comb_inputs(); port.seq(); req = {}; if (roll(2)) { req.is_mmio = 0; req.mmio_addr = 0x10000000; }
    if (!modelled) {
      int to_accept = roll(3), to_answer = roll(3); uint32_t raw = v_any<uint32_t>(v_name("raw", k)); want = f3 == 2 ? raw : piece(raw, 0, f3);
      for (int i = 0; i <= to_accept; i++) { port.in = {}; port.comb_outputs(); V_REQUIRE(!resp.ready && !resp.is_mmio, "an access in progress keeps the port"); V_REQUIRE(port.out.write.req_valid == wr && port.out.read.req_valid == !wr && !port.out.read.resp_ready && !port.out.write.resp_ready, "an unmodelled access goes to the bus"); uint32_t size = (f3 & 3) == 0 ? 0 : (f3 & 3) == 1 ? 1 : 3; if (wr) { v_is<uint32_t>(port.out.write.req_addr, a, "a bus access has the address asked for"); v_is<uint32_t>(port.out.write.req_wdata[0], size == 3 ? d : size ? d & 0xffff : d & 0xff, "a bus write carries the data"); V_REQUIRE(port.out.write.req_total_size == size && port.out.write.req_wstrb == (2ull << size) - 1, "a bus access has the width asked for"); } else { v_is<uint32_t>(port.out.read.req_addr, a, "a bus access has the address asked for"); V_REQUIRE(port.out.read.req_total_size == size, "a bus access has the width asked for"); }
        port.in.read.req_accepted = !wr && i == to_accept; port.in.write.req_accepted = wr && i == to_accept; if (i < to_accept && roll(2)) { port.in.read.req_accepted = wr; port.in.write.req_accepted = !wr; } port.in.read.resp_valid = roll(2); port.in.write.resp_valid = roll(2); port.comb_inputs(); port.seq(); }
      for (int i = 0; i <= to_answer; i++) { port.in = {}; port.comb_outputs(); V_REQUIRE(!resp.ready && !resp.is_mmio && !port.out.read.req_valid && !port.out.write.req_valid && port.out.read.resp_ready == !wr && port.out.write.resp_ready == wr, "an accepted access waits for its answer"); port.in.read.resp_valid = !wr && i == to_answer; port.in.write.resp_valid = wr && i == to_answer; if (i < to_answer) { port.in.read.resp_valid = wr; port.in.write.resp_valid = !wr; } port.in.read.resp_data[0] = raw; for (int j = 1; j < DCACHE_WORD_NUM; j++) port.in.read.resp_data[j] = 0xdeadbeef; port.comb_inputs(); port.seq(); }
    }
    port.in = {}; req = {}; port.comb_outputs(); V_REQUIRE(resp.is_mmio && resp.ready, "an access is answered once"); if (!wr) v_is<uint32_t>(resp.mmio_rdata, want, "a device load returns the register"); port.comb_inputs(); port.seq(); v_eq<View>(look(), now, "an access on its way changes no device"); port.comb_outputs(); V_REQUIRE(!resp.is_mmio, "an access is answered once");
  }
}
