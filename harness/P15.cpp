// P15: recovery of the register mapping and release of physical registers.
// ENTRY: recover 20
// ENTRY: retire 20
// ENTRY: checkpoint 20
#include "ren.h"
using namespace rig;
static bool taken_back(const RobCommitIO::RobCommitInst &u) {   // the instruction traps and so does not take effect
  return u.page_fault_inst || u.page_fault_load || u.page_fault_store || u.illegal_inst || decode_inst_type(u.type) == ECALL;
}
static void commits() {
  v_in(rob_commit, "c");
  for (int i = 0; i < COMMIT_WIDTH; i++) { auto &u = rob_commit.commit_entry[i].uop; u.dest_areg = areg(u.dest_areg); u.dest_en = u.dest_en && u.dest_areg != 0; }
}
// a flush or misprediction together with anything else in the cycle
extern "C" void recover(int part) {
  start(part); bool fl = v_any<bool>("flush"); rob_bcast.flush = fl; dec_bcast.mispred = !fl;
  commits(); if (!fl) for (int i = 0; i < COMMIT_WIDTH; i++) rob_commit.commit_entry[i].valid = false;   // nothing retires in a misprediction cycle
  int n = (old.free_tail, (ren.free_tail + PRF_NUM - ren.free_head) % PRF_NUM); int inflight = POOL - n;
  for (int i = 0; i < COMMIT_WIDTH; i++) if (inflight <= i) rob_commit.commit_entry[i].uop.dest_en = false;   // only what was allocated can retire
  cycle();
  static uint32_t a[ARF_NUM + 1]; for (int r = 0; r < ARF_NUM + 1; r++) a[r] = old.arch_RAT[r];
  uint32_t rel = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) { const auto &e = rob_commit.commit_entry[i]; bool w = e.valid && e.uop.dest_en && !taken_back(e.uop) && !rob_bcast.interrupt; rel += w ? 1 : 0; for (int r = 0; r < ARF_NUM + 1; r++) if (w && e.uop.dest_areg == (uint32_t)r) a[r] = e.uop.dest_preg; }
  uint32_t b = dec_bcast.br_id;
  for (int r = 0; r < ARF_NUM + 1; r++) {
    uint32_t ck = 0; for (int k = 0; k < MAX_BR_NUM; k++) if (b == (uint32_t)k) ck = old.RAT_checkpoint[k][r];
    if (fl) v_is<uint32_t>(ren.spec_RAT[r], a[r], "a flush restores the committed mapping"); else v_is<uint32_t>(ren.spec_RAT[r], ck, "a misprediction restores the mapping at the branch");
    v_is<uint32_t>(ren.arch_RAT[r], a[r], "the committed mapping follows retirement only");
  }
  for (int c = 0; c <= COMMIT_WIDTH; c++) if (rel == (uint32_t)c) {
    uint32_t fc = (old.free_head_commit + c) % PRF_NUM;
    v_is<uint32_t>(ren.free_head_commit, fc, "the retired allocation point advances by what retired");
    if (fl) v_is<uint32_t>(ren.free_head, fc, "a flush resumes allocation after the last retired allocation");
    v_is<uint32_t>(ren.free_tail, (old.free_tail + c) % PRF_NUM, "each retirement releases one register and recovery loses none");
  }
  uint32_t ch = 0; for (int k = 0; k < MAX_BR_NUM; k++) if (b == (uint32_t)k) ch = old.alloc_checkpoint_head[k];
  if (!fl) v_is<uint32_t>(ren.free_head, ch, "a misprediction resumes allocation after the branch");
  for (int i = 0; i < DECODE_WIDTH; i++) V_REQUIRE(!ren.inst_valid[i], "recovery takes priority over renaming");
  V_REQUIRE(!ren2dec.ready, "nothing is accepted during recovery");
}
extern "C" void retire(int part) {
  start(part); rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = false; commits();
  int n = (ren.free_tail + PRF_NUM - ren.free_head) % PRF_NUM, inflight = POOL - n;
  for (int i = 0; i < COMMIT_WIDTH; i++) if (inflight <= i) rob_commit.commit_entry[i].uop.dest_en = false;
  for (int i = 0; i < DECODE_WIDTH; i++) ren.inst_valid[i] = false;
  cycle();
  static uint32_t f[PRF_NUM]; for (int i = 0; i < PRF_NUM; i++) f[i] = old.free_list[i];
  uint32_t k = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    const auto &e = rob_commit.commit_entry[i]; bool w = e.valid && e.uop.dest_en && !taken_back(e.uop) && !rob_bcast.interrupt;
    for (int c = 0; c <= i; c++) if (w && k == (uint32_t)c) f[(old.free_tail + c) % PRF_NUM] = e.uop.old_dest_preg;
    k += w ? 1 : 0;
  }
  for (int i = 0; i < PRF_NUM; i++) v_is<uint32_t>(ren.free_list[i], f[i], "retirement releases exactly the register it replaces");
  if (!rob_bcast.flush) { v_is<uint32_t>(ren.free_head, (uint32_t)old.free_head, "retirement does not allocate"); for (int r = 0; r < ARF_NUM + 1; r++) v_is<uint32_t>(ren.spec_RAT[r], (uint32_t)old.spec_RAT[r], "retirement does not change the speculative mapping"); }
}
// what a branch saves is the mapping and allocation point right after it
extern "C" void checkpoint(int part) {
  start(part); rob_bcast.flush = false; dec_bcast.mispred = false;
  for (int i = 0; i < DECODE_WIDTH; i++) ren.inst_r[i].br_id = 3 + i;   // group members never share a tag (P16)
  cycle(); static Want w; want(w); bool go = dis2ren.ready;
  static uint32_t m[ARF_NUM + 1]; for (int r = 0; r < ARF_NUM + 1; r++) m[r] = old.spec_RAT[r];
  uint32_t used = 0; bool saved[MAX_BR_NUM] = {};
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = old.inst_r[i]; bool fire = go && w.ok[i];
    for (int r = 0; r < ARF_NUM + 1; r++) if (fire && u.dest_en && u.dest_areg == (uint32_t)r) m[r] = w.preg[i];
    used += fire && u.dest_en ? 1 : 0;
    InstType t = decode_inst_type(u.type); bool br = fire && (t == BR || t == JALR);
    if (br) {
      for (int r = 0; r < ARF_NUM + 1; r++) v_is<uint32_t>(ren.RAT_checkpoint[3 + i][r], m[r], "a branch saves the mapping right after it");
      for (int c = 0; c <= DECODE_WIDTH; c++) if (used == (uint32_t)c) v_is<uint32_t>(ren.alloc_checkpoint_head[3 + i], (old.free_head + c) % PRF_NUM, "a branch saves the allocation point right after it");
    } else for (int r = 0; r < ARF_NUM + 1; r++) v_is<uint32_t>(ren.RAT_checkpoint[3 + i][r], (uint32_t)old.RAT_checkpoint[3 + i][r], "only a branch that is renamed saves a mapping");
  }
  for (int b = 0; b < MAX_BR_NUM; b++) if (b < 3 || b >= 3 + DECODE_WIDTH) { for (int r = 0; r < ARF_NUM + 1; r++) v_is<uint32_t>(ren.RAT_checkpoint[b][r], (uint32_t)old.RAT_checkpoint[b][r], "saved mappings of other branches are kept"); v_is<uint32_t>(ren.alloc_checkpoint_head[b], (uint32_t)old.alloc_checkpoint_head[b], "saved allocation points of other branches are kept"); }
}
