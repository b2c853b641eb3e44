// P46: what passes between the memory system and the shared bus in one cycle of the machine.
// FLAGS: -I$VERIF/harness/stubaxi
// ENTRY: first 1
#include "vh.h"
#include "rv_simu_mmu_v2.cpp"
using namespace axi_interconnect;
alignas(64) static char machine[sizeof(SimCpu)]; static SimCpu *cpu; static int outs, ins, mem_out, mem_in, fast, edges, dcache_edges; CPU_state dut_cpu;
static const int TICKS = CONFIG_AXI_SUBSYSTEM_FREQ_DIV; 
static const char *R = "the memory system sees the bus's answer", *Q = "the bus sees the memory system's request";
static void answers() { // as presented to the memory system
  auto &m = cpu->mem_subsystem; auto &r = cpu->axi_interconnect.read_ports[MASTER_DCACHE_R]; auto &w = cpu->axi_interconnect.write_ports[MASTER_DCACHE_W]; v_is<bool>(m.mshr_axi_in.req_ready, r.req.ready, R); v_is<bool>(m.mshr_axi_in.req_accepted, r.req.accepted, R); v_is<uint8_t>(m.mshr_axi_in.req_accepted_id, r.req.accepted_id, R); v_is<bool>(m.mshr_axi_in.resp_valid, r.resp.valid, R); v_is<uint8_t>(m.mshr_axi_in.resp_id, r.resp.id, R); for (int i = 0; i < DCACHE_WORD_NUM; i++) v_is<uint32_t>(m.mshr_axi_in.resp_data[i], r.resp.data[i], R);
  v_is<bool>(m.wb_axi_in.req_ready, w.req.ready, R); v_is<bool>(m.wb_axi_in.req_accepted, w.req.accepted, R); v_is<bool>(m.wb_axi_in.resp_valid, w.resp.valid, R);
}
static void device_answers() {
  auto &m = cpu->mem_subsystem; auto &r = cpu->axi_interconnect.read_ports[MASTER_EXTRA_R]; auto &w = cpu->axi_interconnect.write_ports[MASTER_EXTRA_W]; auto &a = m.peripheral_axi_read_in; auto &b = m.peripheral_axi_write_in; v_is<bool>(a.req_ready, r.req.ready, R); v_is<bool>(a.req_accepted, r.req.accepted, R); v_is<bool>(a.resp_valid, r.resp.valid, R); v_is<uint8_t>(a.resp_id, r.resp.id, R); for (int i = 0; i < DCACHE_WORD_NUM; i++) v_is<uint32_t>(a.resp_data[i], r.resp.data[i], R); v_is<bool>(b.req_ready, w.req.ready, R); v_is<bool>(b.req_accepted, w.req.accepted, R); v_is<bool>(b.resp_valid, w.resp.valid, R); v_is<uint8_t>(b.resp_id, w.resp.id, R);
}
static void requests() {
  auto &m = cpu->mem_subsystem; auto &r = cpu->axi_interconnect.read_ports[MASTER_DCACHE_R]; auto &w = cpu->axi_interconnect.write_ports[MASTER_DCACHE_W]; auto &a = m.mshr_axi_out; auto &b = m.wb_axi_out; v_is<bool>(r.req.valid, a.req_valid, Q); v_is<uint32_t>(r.req.addr, a.req_addr, Q); v_is<uint8_t>(r.req.total_size, a.req_total_size, Q); v_is<uint8_t>(r.req.id, a.req_id, Q); v_is<bool>(r.req.bypass, false, "cached accesses go through the last-level cache"); v_is<bool>(r.resp.ready, a.resp_ready, Q);
  v_is<bool>(w.req.valid, b.req_valid, Q); v_is<uint32_t>(w.req.addr, b.req_addr, Q); v_is<uint8_t>(w.req.total_size, b.req_total_size, Q); v_is<uint8_t>(w.req.id, b.req_id, Q); v_is<uint64_t>(w.req.wstrb, b.req_wstrb, Q); v_is<bool>(w.req.bypass, false, "cached accesses go through the last-level cache"); v_is<bool>(w.resp.ready, b.resp_ready, Q); for (int i = 0; i < CACHELINE_WORDS; i++) v_is<uint32_t>(w.req.wdata[i], i < DCACHE_WORD_NUM ? (uint32_t)b.req_wdata[i] : 0u, Q);
}
static void device_requests() {
  auto &m = cpu->mem_subsystem; auto &r = cpu->axi_interconnect.read_ports[MASTER_EXTRA_R]; auto &w = cpu->axi_interconnect.write_ports[MASTER_EXTRA_W]; auto &a = m.peripheral_axi_read_out; auto &b = m.peripheral_axi_write_out; v_is<bool>(r.req.valid, a.req_valid, Q); v_is<uint32_t>(r.req.addr, a.req_addr, Q); v_is<uint8_t>(r.req.total_size, a.req_total_size, Q); v_is<uint8_t>(r.req.id, a.req_id, Q); v_is<bool>(r.req.bypass, true, "device accesses bypass the last-level cache"); v_is<bool>(r.resp.ready, a.resp_ready, Q);
  v_is<bool>(w.req.valid, b.req_valid, Q); v_is<uint32_t>(w.req.addr, b.req_addr, Q); v_is<uint8_t>(w.req.total_size, b.req_total_size, Q); v_is<uint8_t>(w.req.id, b.req_id, Q); v_is<uint64_t>(w.req.wstrb, b.req_wstrb, Q); v_is<bool>(w.req.bypass, true, "device accesses bypass the last-level cache"); v_is<bool>(w.resp.ready, b.resp_ready, Q); for (int i = 0; i < CACHELINE_WORDS; i++) v_is<uint32_t>(w.req.wdata[i], i < DCACHE_WORD_NUM ? (uint32_t)b.req_wdata[i] : 0u, Q);
}
static void slave(const sim_ddr::SimDDR_IO_t &i, const sim_ddr::SimDDR_IO_t &s) { const char *S = "the bus sees the memory's answer"; v_is<bool>(i.ar.arready, s.ar.arready, S); v_is<bool>(i.r.rvalid, s.r.rvalid, S); v_is<uint32_t>(i.r.rid, s.r.rid, S); v_is<uint64_t>(i.r.rdata, s.r.rdata, S); v_is<uint8_t>(i.r.rresp, s.r.rresp, S); v_is<bool>(i.r.rlast, s.r.rlast, S); v_is<bool>(i.aw.awready, s.aw.awready, S); v_is<bool>(i.w.wready, s.w.wready, S); v_is<bool>(i.b.bvalid, s.b.bvalid, S); v_is<uint32_t>(i.b.bid, s.b.bid, S); v_is<uint8_t>(i.b.bresp, s.b.bresp, S); }
static void master(const sim_ddr::SimDDR_IO_t &s, const sim_ddr::SimDDR_IO_t &i) { const char *S = "memory and devices see the bus's request"; v_is<bool>(s.ar.arvalid, i.ar.arvalid, S); v_is<uint32_t>(s.ar.arid, i.ar.arid, S); v_is<uint32_t>(s.ar.araddr, i.ar.araddr, S); v_is<uint8_t>(s.ar.arlen, i.ar.arlen, S); v_is<uint8_t>(s.ar.arsize, i.ar.arsize, S); v_is<uint8_t>(s.ar.arburst, i.ar.arburst, S); v_is<bool>(s.r.rready, i.r.rready, S); v_is<bool>(s.aw.awvalid, i.aw.awvalid, S); v_is<uint32_t>(s.aw.awid, i.aw.awid, S); v_is<uint32_t>(s.aw.awaddr, i.aw.awaddr, S); v_is<uint8_t>(s.aw.awlen, i.aw.awlen, S); v_is<uint8_t>(s.aw.awsize, i.aw.awsize, S); v_is<uint8_t>(s.aw.awburst, i.aw.awburst, S); v_is<bool>(s.w.wvalid, i.w.wvalid, S); v_is<uint64_t>(s.w.wdata, i.w.wdata, S); v_is<uint32_t>(s.w.wstrb, i.w.wstrb, S); v_is<bool>(s.w.wlast, i.w.wlast, S); v_is<bool>(s.b.bready, i.b.bready, S); }
// the bus, memory and memory system themselves are open
static bool acc_r[NUM_READ_MASTERS], acc_w[NUM_WRITE_MASTERS], rdy_r[NUM_READ_MASTERS], rdy_w[NUM_WRITE_MASTERS]; static uint8_t accid_r[NUM_READ_MASTERS];
static void bus_out(AXI_Interconnect *b) {
  slave(b->axi_ddr_io, cpu->axi_ddr.io); slave(b->axi_mmio_io, cpu->axi_mmio.io); int t = outs++;
  for (int i = 0; i < NUM_READ_MASTERS; i++) { auto &p = b->read_ports[i]; const char *n = v_name("r", t * 4 + i); p.req.ready = v_any<bool>(v_rule(n, "ready")); p.resp.valid = v_any<bool>(v_rule(n, "valid")); p.resp.id = v_any<uint8_t>(v_rule(n, "id")); if (!t) { p.req.accepted = v_any<bool>(v_rule(n, "accepted")); p.req.accepted_id = v_any<uint8_t>(v_rule(n, "acc_id")); v_in(p.resp.data, v_rule(n, "data")); } rdy_r[i] = rdy_r[i] || p.req.ready; }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) { auto &p = b->write_ports[i]; const char *n = v_name("w", t * 4 + i); p.req.ready = v_any<bool>(v_rule(n, "ready")); p.resp.valid = v_any<bool>(v_rule(n, "valid")); p.resp.id = v_any<uint8_t>(v_rule(n, "id")); if (!t) p.req.accepted = v_any<bool>(v_rule(n, "accepted")); rdy_w[i] = rdy_w[i] || p.req.ready; }
}
static bool fast_r(int i) { return CONFIG_DCACHE_FAST_DOMAIN != 0 && i == MASTER_DCACHE_R; } static bool fast_w(int i) { return CONFIG_DCACHE_FAST_DOMAIN != 0 && i == MASTER_DCACHE_W; }
static void bus_in(AXI_Interconnect *b) {
  int t = ins++; if (!t || fast_r(MASTER_DCACHE_R)) requests(); if (!t) device_requests();
  else { const char *M = "a request is presented to the bus once per cycle of the core"; for (int i = 0; i < NUM_READ_MASTERS; i++) if (!fast_r(i)) { V_REQUIRE(!b->read_ports[i].req.valid, M); V_REQUIRE(!b->read_ports[i].resp.ready, "an answer is taken only in a cycle of the core"); } for (int i = 0; i < NUM_WRITE_MASTERS; i++) if (!fast_w(i)) { V_REQUIRE(!b->write_ports[i].req.valid, M); V_REQUIRE(!b->write_ports[i].resp.ready, "an answer is taken only in a cycle of the core"); } }
  v_in(b->axi_ddr_io, v_name("to_ddr", t)); v_in(b->axi_mmio_io, v_name("to_mmio", t));
}
static int ddr_ins; static void ddr_in(sim_ddr::SimDDR *d) { ddr_ins++; master(d->io, cpu->axi_interconnect.axi_ddr_io); } static int mmio_ins; static void mmio_in(mmio::MMIO_Bus_AXI4 *d) { mmio_ins++; master(d->io, cpu->axi_interconnect.axi_mmio_io); }
static void bus_edge(AXI_Interconnect *b) { int t = edges++; for (int i = 0; i < NUM_READ_MASTERS; i++) { bool a = v_any<bool>(v_name("take_r", t * 4 + i)); b->read_req_accepted[i] = a; b->read_req_accepted_id[i] = v_any<uint8_t>(v_name("take_id", t * 4 + i)); b->read_ports[i].req.accepted = a; b->read_ports[i].req.accepted_id = b->read_req_accepted_id[i]; if (a) { acc_r[i] = true; accid_r[i] = b->read_req_accepted_id[i]; } } for (int i = 0; i < NUM_WRITE_MASTERS; i++) { bool a = v_any<bool>(v_name("take_w", t * 4 + i)); b->write_req_accepted[i] = a; b->write_ports[i].req.accepted = a; if (a) acc_w[i] = true; } }
static void m_out(MemSubsystem *) { mem_out++; V_REQUIRE(outs == 1 && ins == 0, "the memory system sees the bus's answer of this cycle"); answers(); device_answers(); }
static void m_in(MemSubsystem *m) { mem_in++; V_REQUIRE(ins == 0, "the bus sees the memory system's request of this cycle"); v_in(m->mshr_axi_out, "miss"); v_in(m->wb_axi_out, "evict"); v_in(m->peripheral_axi_read_out, "device_read"); v_in(m->peripheral_axi_write_out, "device_write"); }
static void f_comb(MemSubsystem *m, bool) { int t = fast++; answers(); v_in(m->mshr_axi_out, v_name("miss", t)); v_in(m->wb_axi_out, v_name("evict", t)); } static void f_edge(MemSubsystem *, bool) { dcache_edges++; }
static void nothing() {}
__attribute__((used)) static void (MemSubsystem::*open_steps[])(bool) = {&MemSubsystem::dcache_fast_comb, &MemSubsystem::dcache_fast_seq};
static void boot(int part) {
  __v_noexit(1); cpu = (SimCpu *)machine; v_in(cpu->axi_ddr.io, "ddr"); v_in(cpu->axi_mmio.io, "mmio"); v_in(cpu->back.out.mispred, "mis"); for (const char *f : {"BackTop::comb_csr_status", "BackTop::comb", "BackTop::seq", "SimCpu::front_cycle", "SimCpu::back2front_comb", "MemSubsystem::llc_comb_outputs", "MemSubsystem::llc_seq", "MemSubsystem::seq"}) __v_model(f, (void *)nothing);
  __v_model("MemSubsystem::comb_outputs", (void *)m_out); __v_model("MemSubsystem::comb_inputs", (void *)m_in); __v_model("MemSubsystem::dcache_fast_comb", (void *)f_comb); __v_model("MemSubsystem::dcache_fast_seq", (void *)f_edge); __v_model("AXI_Interconnect::comb_outputs", (void *)bus_out); __v_model("AXI_Interconnect::comb_inputs", (void *)bus_in); __v_model("AXI_Interconnect::seq", (void *)bus_edge); __v_model("SimDDR::comb_inputs", (void *)ddr_in); __v_model("MMIO_Bus_AXI4::comb_inputs", (void *)mmio_in);
  outs = ins = mem_out = mem_in = fast = edges = dcache_edges = ddr_ins = mmio_ins = 0; for (auto &x : acc_r) x = false; for (auto &x : acc_w) x = false; for (auto &x : rdy_r) x = false; for (auto &x : rdy_w) x = false; cpu->ctx.exit_reason = ExitReason::NONE; cpu->back.out.flush = true; v_in(cpu->axi_interconnect.read_ports, "rports"); v_in(cpu->axi_interconnect.write_ports, "wports");
}
extern "C" void first(int part) {
  boot(part); cpu->cycle(); V_REQUIRE(mem_out == 1 && mem_in == 1, "the memory system takes part once in a cycle"); V_REQUIRE(outs == TICKS && ins == TICKS && edges == TICKS && ddr_ins == TICKS && mmio_ins == TICKS, "the bus runs its share of a cycle"); V_REQUIRE(fast == dcache_edges, "the data cache is clocked as often as it is evaluated");
  auto &b = cpu->axi_interconnect; const char *A = "an acceptance in any step of the bus reaches the core's next cycle";
  for (int i = 0; i < NUM_READ_MASTERS; i++) if (!fast_r(i)) { v_is<bool>(b.read_ports[i].req.accepted, acc_r[i], A); v_is<bool>(b.read_req_accepted[i], acc_r[i], A); if (acc_r[i]) v_is<uint8_t>(b.read_ports[i].req.accepted_id, accid_r[i], A); }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) if (!fast_w(i)) v_is<bool>(b.write_ports[i].req.accepted, acc_w[i], A);
}
