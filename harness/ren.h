// The rename stage with its ports, in any consistent state.
#pragma once
#include "vh.h"
#include "back-end/Ren.cpp"
long long sim_time;
namespace rig {
static DecRenIO dec2ren; static DecBroadcastIO dec_bcast; static DisRenIO dis2ren; static RobBroadcastIO rob_bcast; static RobCommitIO rob_commit;
static RenDecIO ren2dec; static RenDisIO ren2dis; static SimContext ctx; static Ren ren(&ctx), old(&ctx);
static void no_commit(SimContext *, InstEntry *, int) {}
static void no_diff(SimContext *, InstEntry *) {}
enum { POOL = PRF_NUM - (ARF_NUM + 1), HEADS = 5, COUNTS = 4 };
inline uint32_t areg(uint32_t v) { return (v & ARF_NUM) | (v & (ARF_NUM - 1) & ~(0u - (v / ARF_NUM & 1))); }   // 0..ARF_NUM
// free-list pointers are concrete so that every list position is known: part selects head and number of free registers
inline void start(int part) {
  __v_model("SimContext::run_commit_inst", (void *)no_commit); __v_model("SimContext::run_difftest_inst", (void *)no_diff);
  static const int heads[HEADS] = {0, 1, PRF_NUM / 2, PRF_NUM - 2, PRF_NUM - 1}, counts[COUNTS] = {0, 1, 2, POOL};
  ren.in = {&dec2ren, &dec_bcast, &dis2ren, &rob_bcast, &rob_commit}; ren.out = {&ren2dec, &ren2dis};
  int h = heads[part % HEADS], n = counts[part / HEADS % COUNTS];
  v_in(ren.inst_r, "inst"); v_in(ren.inst_valid, "valid"); v_in(ren.arch_RAT, "arch"); v_in(ren.spec_RAT, "map"); v_in(ren.RAT_checkpoint, "ckpt"); v_in(ren.free_list, "free"); v_in(ren.alloc_checkpoint_head, "ckpt_head");
  ren.free_head = h; ren.free_tail = (h + n) % PRF_NUM; ren.free_head_commit = (h - (POOL - n) + 2 * PRF_NUM) % PRF_NUM;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    auto &u = ren.inst_r[i]; u.dest_areg = areg(u.dest_areg); u.src1_areg = areg(u.src1_areg); u.src2_areg = areg(u.src2_areg); u.dest_en = u.dest_en && u.dest_areg != 0;
  }
  v_in(dec2ren, "dec"); v_in(dec_bcast, "br"); v_in(dis2ren, "dis"); v_in(rob_bcast, "rob"); v_in(ren2dec, "stale_ready"); v_in(ren2dis, "stale");
  for (int i = 0; i < COMMIT_WIDTH; i++) rob_commit.commit_entry[i].valid = false;
}
inline void keep() {   // what the registers held at the start of the cycle
  for (int i = 0; i < DECODE_WIDTH; i++) { old.inst_r[i] = ren.inst_r[i]; old.inst_valid[i] = ren.inst_valid[i]; }
  for (int i = 0; i < ARF_NUM + 1; i++) { old.arch_RAT[i] = ren.arch_RAT[i]; old.spec_RAT[i] = ren.spec_RAT[i]; for (int b = 0; b < MAX_BR_NUM; b++) old.RAT_checkpoint[b][i] = ren.RAT_checkpoint[b][i]; }
  for (int i = 0; i < PRF_NUM; i++) old.free_list[i] = ren.free_list[i];
  for (int b = 0; b < MAX_BR_NUM; b++) old.alloc_checkpoint_head[b] = ren.alloc_checkpoint_head[b];
  old.free_head = ren.free_head; old.free_tail = ren.free_tail; old.free_head_commit = ren.free_head_commit;
}
inline void cycle() { keep(); ren.comb_begin(); ren.comb_alloc(); ren.comb_rename(); ren.comb_fire(); ren.comb_pipeline(); ren.seq(); }
// the rename decision, written from the property
struct Want { bool ok[DECODE_WIDTH]; uint32_t preg[DECODE_WIDTH], map[DECODE_WIDTH + 1][ARF_NUM + 1]; int head[DECODE_WIDTH + 1]; };
inline void want(Want &w) {
  int n = (old.free_tail + PRF_NUM - old.free_head) % PRF_NUM, used = 0; bool stall = false; uint32_t used_mask = 0;
  for (int r = 0; r < ARF_NUM + 1; r++) w.map[0][r] = old.spec_RAT[r];
  bool need_before[DECODE_WIDTH] = {};
  (void)used_mask; (void)used;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = old.inst_r[i]; bool need = old.inst_valid[i] && u.dest_en; need_before[i] = need;
    // free register number: one per older instruction of the group that needs one
    uint32_t k = 0; for (int j = 0; j < i; j++) k += need_before[j] ? 1 : 0;
    uint32_t p = 0; bool have = false;
    for (int c = 0; c <= i && c < n; c++) if (k == (uint32_t)c) { p = old.free_list[(old.free_head + c) % PRF_NUM]; have = true; }
    w.ok[i] = old.inst_valid[i] && !stall && (!need || have); stall = stall || (need && !have);
    w.preg[i] = p;
    for (int r = 0; r < ARF_NUM + 1; r++) w.map[i + 1][r] = need && u.dest_areg == (uint32_t)r ? p : w.map[i][r];
  }
}
inline uint32_t at(const uint32_t *map, uint32_t r) { uint32_t v = 0; for (int i = 0; i < ARF_NUM + 1; i++) if (r == (uint32_t)i) v = map[i]; return v; }
}
