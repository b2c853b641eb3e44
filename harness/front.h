// The fetch pipeline with its predictor and instruction cache replaced by
// scripted ones: which cycle does what is fixed, what the predictor and the
// instruction memory answer is unknown.
#pragma once
#include "vh.h"
// the predictor is scripted: its tables are not built
static void no_tables(void *) {}
namespace { struct BeforePredictor { BeforePredictor() { __v_model("BPU_TOP::BPU_TOP", (void *)no_tables); } } before_predictor; }
#include "front-end/front_top.cpp"
#include "front-end/predecode.cpp"
#include "front-end/predecode_checker.cpp"
#include "front-end/fifo/fetch_address_FIFO.cpp"
#include "front-end/fifo/instruction_FIFO.cpp"
#include "front-end/fifo/PTAB.cpp"
#define bit_mask_u32 bit_mask_u32_again
#include "front-end/fifo/front2bank_FIFO.cpp"
#undef bit_mask_u32
#include "fifo.h"
namespace fr {
enum { MAXG = 40 };
struct Group { uint32_t pc, next, inst[FETCH_WIDTH]; bool flush, sent; PTAB_in pred; bool pf[FETCH_WIDTH], iv[FETCH_WIDTH]; bool dir[FETCH_WIDTH]; uint32_t corrected; };
static Group g[MAXG]; static int made;      // groups handed out by the predictor
static int live[MAXG], lives;                             // groups still expected at the back end, in order
static int ask[MAXG], asks, answered;                     // requests seen by the instruction cache
static bool do_issue, do_ready, do_answer; static uint32_t kinds; static int seen_refetch; static uint32_t next_pc; static int solved;
static uint32_t rng; static uint32_t rnd() { rng = rng * 1664525u + 1013904223u; return rng >> 16; }
static uint32_t seq(uint32_t pc) { uint32_t n = pc + FETCH_WIDTH * 4, m = ~(uint32_t)(ICACHE_LINE_SIZE - 1); return (n & m) != (pc & m) ? n & m : n; }
// a fetch group: what the memory holds, what was predicted, what must come of it
static void make(int k) {
  Group &x = g[k]; x.pc = next_pc; x.sent = false; v_in(x.pred, v_name("prediction", k)); tidy_tage(x.pred); int kind = rnd() % 8, at = rnd() % FETCH_WIDTH; uint32_t line = ~(uint32_t)(ICACHE_LINE_SIZE - 1);
  x.corrected = seq(x.pc); bool taken = false; uint32_t told = x.corrected;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    uint32_t pc = x.pc + 4 * i; bool same = (pc & line) == (x.pc & line); x.iv[i] = same; x.pf[i] = v_any<bool>(v_name(v_name("fault", k), i)); x.pred.predict_base_pc[i] = pc; x.pred.predict_dir[i] = false; x.dir[i] = false;
    uint32_t w = v_any<uint32_t>(v_name(v_name("word", k), i)); x.inst[i] = (w & ~0x7fu) | 0x13; if (kind >= 2 && (i == at || (kind == 5 && i > at)) && same) {
      if (kind == 2) { x.inst[i] = (w & 0xf80) | 0x0200006f; x.dir[i] = true; if (!taken) { x.corrected = pc + 0x20; taken = true; } }              // jump
      if (kind == 3) { x.inst[i] = (w & ~0x7fu) | 0x67; x.dir[i] = true; if (!taken) { x.corrected = 0x90000000 + k * 64; taken = true; } }           // indirect
      if (kind == 4) { x.inst[i] = (w & 0x1ff7000) | 0x00000463; x.pred.predict_dir[i] = x.dir[i] = true; if (!taken) { x.corrected = pc + 8; taken = true; } } // taken branch
      if (kind == 5) x.inst[i] = (w & ~0x7fu) | 0x63;                                                                                            // branches predicted not taken
      if (kind == 6) x.pred.predict_dir[i] = true;                                                                                               // predicted taken, but no branch
      if (kind == 7) { x.inst[i] = (w & 0xf80) | 0xfe1ff06f; x.dir[i] = true; if (!taken) { x.corrected = pc - 0x20; taken = true; } }
    }
  }
  told = x.corrected; x.flush = !(kind == 3 && taken) && rnd() % 4 == 0; if (x.flush) told = x.corrected + 0x1000; x.pred.predict_next_fetch_address = told; next_pc = told; x.next = told;
}
static void bpu_read(BPU_TOP *, const BPU_TOP::InputPayload &, BPU_TOP::ReadData &) {}
static void bpu_comb(BPU_TOP *, const BPU_TOP::InputPayload &in, BPU_TOP::ReadData &, BPU_TOP::OutputPayload &o, BPU_TOP::UpdateRequest &) {
  std::memset(&o, 0, sizeof o); if (in.refetch) { seen_refetch++; next_pc = in.refetch_address; return; }
  if (!do_issue || made == MAXG) return; o.icache_read_valid = true; int k = made; uint32_t keep = next_pc, kr = rng; make(k); o.fetch_address = o.out_pred_base_pc = g[k].pc; PTAB_in &p = g[k].pred;
  for (int i = 0; i < FETCH_WIDTH; i++) { o.out_pred_dir[i] = p.predict_dir[i]; o.out_alt_pred[i] = p.alt_pred[i]; o.out_pcpn[i] = p.pcpn[i]; o.out_altpcpn[i] = p.altpcpn[i]; for (int j = 0; j < 4; j++) { o.out_tage_idxs[i][j] = p.tage_idx[i][j]; o.out_tage_tags[i][j] = p.tage_tag[i][j]; } o.out_sc_used[i] = p.sc_used[i]; o.out_sc_pred[i] = p.sc_pred[i]; o.out_sc_sum[i] = p.sc_sum[i]; for (int t = 0; t < BPU_SCL_META_NTABLE; t++) o.out_sc_idx[i][t] = p.sc_idx[i][t]; o.out_loop_used[i] = p.loop_used[i]; o.out_loop_hit[i] = p.loop_hit[i]; o.out_loop_pred[i] = p.loop_pred[i]; o.out_loop_idx[i] = p.loop_idx[i]; o.out_loop_tag[i] = p.loop_tag[i]; }
  o.predict_next_fetch_address = p.predict_next_fetch_address; o.PTAB_write_enable = in.icache_read_ready;
  if (in.icache_read_ready) { live[lives++] = k; made++; } else { next_pc = keep; rng = kr; }
}
static void bpu_write(BPU_TOP *, const BPU_TOP::InputPayload &, const BPU_TOP::UpdateRequest &, bool) {}
static front_top_in in; static front_top_out out; static bool backend_flush; static uint32_t backend_target;
static void check_group(const Group &x) {
  lane(out.instructions, x.inst); lane(out.page_fault_inst, x.pf); lane(out.inst_valid, x.iv); lane(out.pc, x.pred.predict_base_pc);
  for (int i = 0; i < FETCH_WIDTH; i++) v_is<bool>(out.predict_dir[i], x.dir[i], "no non-branch is treated as taken and every unconditional jump is");
  v_is<uint32_t>(out.predict_next_fetch_address, x.corrected, "the next address handed over is the repaired one"); same_tage(out, x.pred);
}
// One cycle; checks what reaches the back end.
static int delivered, expected_refetch; static uint32_t expected_addr; static bool pend_flush; static uint32_t pend_addr;
static void cycle() {
  int was = seen_refetch; uint32_t pc0 = next_pc; (void)pc0; out = front_top_out{}; front_top(&in, &out);
  bool redirected = seen_refetch != was;
  v_is<bool>(redirected, in.refetch || pend_flush, "a redirect happens exactly when the repaired address differs or the back end asks");
  if (redirected) { v_is<uint32_t>(next_pc, in.refetch ? in.refetch_address : pend_addr, "fetching continues at the redirect address, the back end's first"); if (in.refetch) lives = delivered; else { int k = 0; for (int i = 0; i < lives; i++) if (g[live[i]].flush && i >= solved) { k = i + 1; break; } lives = k; solved = k; } if (in.refetch) solved = delivered; asks = answered = 0; }
  pend_flush = predecode_refetch; pend_addr = predecode_refetch_address;
  V_REQUIRE(!out.FIFO_valid || in.FIFO_read_enable, "a group leaves only when the back end asks");
  if (out.FIFO_valid) { V_REQUIRE(delivered < lives, "no squashed or invented group reaches the back end"); if (delivered < lives) { check_group(g[live[delivered]]); delivered++; } }
  if (pend_flush) { int k = -1; for (int i = solved; i < lives; i++) if (g[live[i]].flush) { k = i; break; } V_REQUIRE(k >= 0, "a redirect happens exactly when the repaired address differs or the back end asks"); if (k >= 0) v_is<uint32_t>(pend_addr, g[live[k]].corrected, "a redirect goes to the repaired address"); }
}
static void boot(int seed) {
  __v_noexit(1); __v_model("BPU_TOP::bpu_seq_read", (void *)bpu_read); __v_model("BPU_TOP::bpu_comb_calc", (void *)bpu_comb); __v_model("BPU_TOP::bpu_seq_write", (void *)bpu_write);
  rng = seed * 7919 + 12345; made = lives = asks = answered = delivered = solved = 0; seen_refetch = 0; pend_flush = false; do_issue = do_ready = do_answer = false; next_pc = 0x80000000; std::memset(&in, 0, sizeof in); in.reset = true; front_top(&in, &out); in.reset = false; V_REQUIRE(!out.FIFO_valid, "nothing leaves during a reset"); seen_refetch = 0;
}
}
void icache_peek_ready(struct icache_in *i, struct icache_out *o) { o->icache_read_ready = fr::do_ready; }
void icache_seq_read(struct icache_in *, struct icache_out *) {}
void icache_seq_write() {}
void icache_comb_calc(struct icache_in *i, struct icache_out *o) {
  using namespace fr; std::memset(o, 0, sizeof *o); o->icache_read_ready = do_ready; if (i->invalidate_req || i->refetch || i->reset) { asks = answered = 0; return; }
  if (do_answer && answered < asks) { Group &x = g[ask[answered++]]; o->icache_read_complete = true; o->fetch_pc = x.pc; for (int k = 0; k < FETCH_WIDTH; k++) { o->fetch_group[k] = x.inst[k]; o->page_fault_inst[k] = x.pf[k]; o->inst_valid[k] = x.iv[k]; } }
  if (i->icache_read_valid) { V_REQUIRE(do_ready, "a fetch is sent only to a ready cache"); int k = -1; for (int n = delivered; n < lives; n++) if (!g[live[n]].sent) { k = live[n]; break; } V_REQUIRE(k >= 0, "a fetch address is the next predicted one"); if (k >= 0) { v_is<uint32_t>(i->fetch_address, g[k].pc, "a fetch address is the next predicted one"); g[k].sent = true; ask[asks++] = k; } }
}
