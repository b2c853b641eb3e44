// ENTRY: carried 2
// ENTRY: controller 48
// ENTRY: group 4
// FLAGS: -I$VERIF/harness/stubic
#include "front-end/icache/icache_module.cpp"
#include "front-end/icache/ICacheTop.cpp"
#include "vh.h"
// The instruction-cache controller and the fetch-group logic behind it, both evaluated through bit vectors.
long long sim_time; icache_module_n::ICache icache; using namespace icache_module_n;
TlbMmu::Result TlbMmu::translate(uint32_t &, uint32_t, uint32_t, CsrStatusIO *) { return Result::RETRY; }
void icache_fill_lookup_meta_input(ICache_lookup_in_t &) {} void icache_fill_lookup_data_input(ICache_lookup_in_t &, bool, uint32_t, uint32_t) {}
static const int W = ICACHE_WORD_NUM, WAY = 3, IDX = ICACHE_INDEX_BITS;
// every field with the number of bits it may use
#define REGS(F) F(req_valid_r, 1) F(req_pc_r, 32) F(ifu_req_ready_r, 1) F(state, 3) F(mem_axi_state, 1) F(replace_idx, WAY) F(ppn_r, 20) F(miss_txid_valid_r, 1) F(miss_txid_r, 4) F(miss_ready_seen_r, 1) F(dcache_probe_inflight_r, 1) F(dcache_probe_done_r, 1) F(dcache_probe_hit_r, 1) F(dcache_probe_word_r, 4) F(lookup_pending_r, 1) F(lookup_pc_r, 32)
#define REG_ARRAYS(F) F(mem_resp_data_r, 32, W) F(txid_inflight_r, 1, 16) F(txid_canceled_r, 1, 16) F(dcache_probe_data_r, 32, W)
#define INS(F) F(pc, 32) F(ifu_req_valid, 1) F(refetch, 1) F(flush, 1) F(ppn, 20) F(ppn_valid, 1) F(page_fault, 1) F(mem_req_ready, 1) F(mem_req_accepted, 1) F(mem_req_accepted_id, 4) F(mem_resp_valid, 1) F(mem_resp_id, 4) F(dcache_resp_valid, 1) F(dcache_resp_miss, 1) F(dcache_resp_data, 32)
#define IN_ARRAYS(F) F(mem_resp_data, 32, W)
#define LOOK(F) F(meta_resp_valid, 1) F(data_resp_valid, 1) F(data_resp_way, WAY)
#define LOOK_ARRAYS(F) F(data_resp_line, 32, W)
#define OUTS(F) F(miss, 1) F(ifu_resp_valid, 1) F(ifu_req_ready, 1) F(ifu_resp_pc, 32) F(ifu_page_fault, 1) F(ppn_ready, 1) F(mmu_req_valid, 1) F(mmu_req_vtag, 20) F(mem_req_valid, 1) F(mem_req_id, 4) F(mem_resp_ready, 1) F(dcache_req_valid, 1) F(dcache_req_addr, 32) F(lookup_data_req_valid, 1) F(lookup_data_req_index, IDX) F(lookup_data_req_way, WAY)
#define OUT_ARRAYS(F) F(rd_data, 32, W)
#define WRITES(F) F(we, 1) F(invalidate_all, 1) F(index, IDX) F(way, WAY) F(tag, 20) F(valid, 1)
#define WRITE_ARRAYS(F) F(data, 32, W)
static const uint32_t low(int n) { return n >= 32 ? 0xffffffffu : (1u << n) - 1; }
#define FILL(f, n) x.f = v_any<uint32_t>(v_name(pre, id++)) & low(n);
#define FILL_A(f, n, k) for (int i = 0; i < k; i++) x.f[i] = v_any<uint32_t>(v_name(pre, id++)) & low(n);
#define SAME(f, n) v_is<uint32_t>(a.f, b.f, rule);
#define SAME_A(f, n, k) for (int i = 0; i < k; i++) v_is<uint32_t>(a.f[i], b.f[i], rule);
static void fill(ICache_regs_t &x, const char *pre) { int id = 0; REGS(FILL) REG_ARRAYS(FILL_A) x.req_index_r = (uint32_t)x.req_pc_r >> ICACHE_OFFSET_BITS & (ICACHE_SET_NUM - 1); x.lookup_index_r = (uint32_t)x.lookup_pc_r >> ICACHE_OFFSET_BITS & (ICACHE_SET_NUM - 1); }
static void fill(ICache_in_t &x, const char *pre) { int id = 0; INS(FILL) IN_ARRAYS(FILL_A) x.ifu_resp_ready = true; }
static void fill(ICache_lookup_in_t &x, const char *pre) { int id = 0; LOOK(FILL) LOOK_ARRAYS(FILL_A) for (int w = 0; w < ICACHE_WAY_NUM; w++) { x.lookup_set_tag[w] = v_any<uint32_t>(v_name("tag", w)) & low(20); x.lookup_set_valid[w] = v_any<uint32_t>(v_name("valid", w)) & 1; } }
static void fill(ICache_out_t &x, const char *pre) { int id = 0; OUTS(FILL) OUT_ARRAYS(FILL_A) x.mem_req_addr = v_any<uint32_t>("mem_req_addr") & ~63u; }
static void fill(ICache_table_write_t &x, const char *pre) { int id = 0; WRITES(FILL) WRITE_ARRAYS(FILL_A) }
static void same(const ICache_regs_t &a, const ICache_regs_t &b, const char *rule) { REGS(SAME) REG_ARRAYS(SAME_A) SAME(req_index_r, IDX) SAME(lookup_index_r, IDX) }
static void same(const ICache_in_t &a, const ICache_in_t &b, const char *rule) { INS(SAME) IN_ARRAYS(SAME_A) }
static void same(const ICache_lookup_in_t &a, const ICache_lookup_in_t &b, const char *rule) { LOOK(SAME) LOOK_ARRAYS(SAME_A) }
static void same(const ICache_out_t &a, const ICache_out_t &b, const char *rule) { OUTS(SAME) OUT_ARRAYS(SAME_A) SAME(mem_req_addr, 32) }
static void same(const ICache_table_write_t &a, const ICache_table_write_t &b, const char *rule) { WRITES(SAME) WRITE_ARRAYS(SAME_A) }
// ---- what crosses the boundary: the logic in between is replaced by one that notes its inputs and answers with unknowns
static ICache_IO_t seen, given; static bool seen_phase; static int calls;
static void noting(ICache *c, bool phase) { seen = c->io; seen_phase = phase; calls++; c->io.reg_write = given.reg_write; c->io.out = given.out; c->io.table_write = given.table_write; }
extern "C" void carried(int part) {
  __v_model("ICache::comb_core", (void *)noting); static ICache c; fill(c.io.regs, "regs"); fill(c.io.in, "in"); fill(c.io.lookup_in, "look"); fill(given.reg_write, "next"); fill(given.out, "out"); fill(given.table_write, "write");
  ICache_IO_t was = c.io; if (part) c.comb(); else c.comb_lookup_meta(); V_REQUIRE(calls > 0, "the controller is evaluated"); v_is<bool>(seen_phase, part == 1, "the phase is carried"); same(seen.regs, was.regs, "a register of the instruction-cache controller is carried into its packed form"); same(seen.in, was.in, "an input of the instruction-cache controller is carried into its packed form"); same(seen.lookup_in, was.lookup_in, "a table answer is carried into the packed form");
  same(c.io.reg_write, given.reg_write, "a next-state value of the instruction-cache controller is carried out of its packed form"); same(c.io.out, given.out, "an output of the instruction-cache controller is carried out of its packed form"); same(c.io.table_write, given.table_write, "a table write is carried out of the packed form");
}
// ---- both evaluations of the controller: control concrete, data unknown
static uint32_t rng; static uint32_t roll(uint32_t n) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return (rng >> 8) % n; }
extern "C" void controller(int part) {
  rng = (part + 1) * 2654435761u | 1;
  for (int t = 0; t < 40; t++) {
    static ICache c; ICache_regs_t &r = c.io.regs; ICache_in_t &i = c.io.in; ICache_lookup_in_t &l = c.io.lookup_in; fill(r, "regs"); fill(i, "in"); fill(l, "look");
    r.state = part % 5; r.mem_axi_state = part / 5 & 1; r.req_valid_r = roll(2); r.ifu_req_ready_r = roll(4) != 0; r.replace_idx = roll(8); r.ppn_r = roll(4) * 0x11111; r.miss_txid_valid_r = roll(4) != 0; r.miss_txid_r = roll(3); r.miss_ready_seen_r = roll(2); r.dcache_probe_inflight_r = roll(2); r.dcache_probe_done_r = roll(3) == 0; r.dcache_probe_hit_r = roll(2); r.dcache_probe_word_r = roll(3) ? 15 : roll(16); r.lookup_pending_r = roll(4) == 0; for (int k = 0; k < 16; k++) { r.txid_inflight_r[k] = roll(2); r.txid_canceled_r[k] = roll(3) == 0; }
    i.ifu_req_valid = roll(3) != 0; i.refetch = roll(6) == 0; i.flush = roll(8) == 0; i.flush = i.flush && i.refetch; i.ppn = roll(4) * 0x11111; i.ppn_valid = roll(4) != 0; i.page_fault = roll(5) == 0; i.mem_req_ready = roll(2); i.mem_req_accepted = roll(2); i.mem_req_accepted_id = roll(3); i.mem_resp_valid = roll(4) != 0; i.mem_resp_id = roll(3); i.dcache_resp_valid = roll(2); i.dcache_resp_miss = roll(2);
    l.meta_resp_valid = roll(6) != 0; for (int w = 0; w < ICACHE_WAY_NUM; w++) { l.lookup_set_tag[w] = (roll(2) ? roll(4) : roll(16)) * 0x11111; l.lookup_set_valid[w] = roll(8) != 0; } l.data_resp_valid = roll(4) != 0; l.data_resp_way = roll(8);
    ICache d; d.io = c.io; bool phase = roll(2); d.comb_core(phase); if (phase) c.comb_lookup_data(); else c.comb_lookup_meta();
    same(c.io.reg_write, d.io.reg_write, "both evaluations of the instruction-cache controller reach the same next state"); same(c.io.out, d.io.out, "both evaluations of the instruction-cache controller give the same outputs"); same(c.io.table_write, d.io.table_write, "both evaluations of the instruction-cache controller write the same line");
  }
}
// ---- the fetch group
extern "C" void group(int part) {
  using namespace icache_top_n; TrueGlueInput in; bool fire = part & 1;
  in.reset = part == 2; in.hold_for_recovery = v_any<uint8_t>("hold") & 1; in.reg_ifu_req_ready = v_any<uint8_t>("ready") & 1; in.reg_lookup_pending = v_any<uint8_t>("pending") & 1; in.reg_req_valid = v_any<uint8_t>("valid") & 1; in.reg_miss_txid_valid = v_any<uint8_t>("txid") & 1; in.reg_state = v_any<uint8_t>("state") & 7; in.reg_mem_axi_state = v_any<uint8_t>("axi") & 1; in.module_ifu_req_ready = v_any<uint8_t>("module_ready") & 1; in.module_ifu_resp_valid = fire; in.module_ifu_page_fault = v_any<uint8_t>("fault") & 1; for (int w = 0; w < W; w++) in.module_rd_data[w] = v_any<uint32_t>(v_name("word", w));
  for (int w = 0; w < W; w++) { in.module_ifu_resp_pc = (v_any<uint32_t>("pc") & ~63u) | w << 2; TrueGlueOutput a = run_true_glue_io_generator(in), b = eval_true_glue(in); const char *rule = "the packed fetch group is the direct one";
    SAME(icache_read_ready, 1) SAME(icache_read_complete, 1) SAME(icache_read_ready_2, 1) SAME(icache_read_complete_2, 1) SAME(fetch_pc, 32) SAME(fetch_pc_2, 32) SAME_A(fetch_group, 32, FETCH_WIDTH) SAME_A(page_fault_inst, 1, FETCH_WIDTH) SAME_A(inst_valid, 1, FETCH_WIDTH) SAME_A(fetch_group_2, 32, FETCH_WIDTH) SAME_A(page_fault_inst_2, 1, FETCH_WIDTH) SAME_A(inst_valid_2, 1, FETCH_WIDTH) }
}
