// P14: register renaming.
// ENTRY: group 20
// ENTRY: update 20
// ENTRY: reset
#include "ren.h"
using namespace rig;
extern "C" void group(int part) {
  start(part); keep(); ren.comb_begin(); ren.comb_alloc(); ren.comb_rename();
  static Want w; want(w);
  bool before = true;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = old.inst_r[i]; const auto &o = ren2dis.uop[i];
    v_is<bool>(ren2dis.valid[i], w.ok[i], "an instruction is renamed when it and its elders have the registers they need");
    if (w.ok[i]) {
      v_is<uint32_t>(o.src1_preg, at(w.map[i], u.src1_areg), "first source maps to its youngest older producer");
      v_is<uint32_t>(o.src2_preg, at(w.map[i], u.src2_areg), "second source maps to its youngest older producer");
      if (u.dest_en) {
        v_is<uint32_t>(o.dest_preg, w.preg[i], "a destination gets the next free register");
        v_is<uint32_t>(o.old_dest_preg, at(w.map[i], u.dest_areg), "the mapping recorded for release is the one replaced");
      }
      V_REQUIRE(before, "renaming is in program order");
    }
    before = before && (w.ok[i] || !old.inst_valid[i]);
    v_eq(o.dest_en, u.dest_en, "renaming keeps the instruction"); v_eq(o.dest_areg, u.dest_areg, "renaming keeps the instruction"); v_eq(o.src1_en, u.src1_en, "renaming keeps the instruction"); v_eq(o.src2_en, u.src2_en, "renaming keeps the instruction"); v_eq(o.br_mask, u.br_mask, "renaming keeps the instruction"); v_eq(o.br_id, u.br_id, "renaming keeps the instruction");
  }
}
extern "C" void update(int part) {
  start(part); rob_bcast.flush = false; dec_bcast.mispred = false; cycle();
  static Want w; want(w);
  bool go = dis2ren.ready, fire[DECODE_WIDTH], all = true; static uint32_t m[ARF_NUM + 1]; int head = old.free_head;
  for (int r = 0; r < ARF_NUM + 1; r++) m[r] = old.spec_RAT[r];
  uint32_t used = 0;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = old.inst_r[i]; fire[i] = go && w.ok[i]; all = all && (fire[i] || !old.inst_valid[i]);
    for (int r = 0; r < ARF_NUM + 1; r++) if (fire[i] && u.dest_en && u.dest_areg == (uint32_t)r) m[r] = w.preg[i];
    used += fire[i] && u.dest_en ? 1 : 0;
  }
  for (int r = 0; r < ARF_NUM + 1; r++) v_is<uint32_t>(ren.spec_RAT[r], m[r], "the mapping names the youngest producer of each register");
  v_is<uint32_t>(ren.spec_RAT[0], (uint32_t)old.spec_RAT[0], "register zero is never remapped");
  for (int c = 0; c <= DECODE_WIDTH; c++) if (used == (uint32_t)c) v_is<uint32_t>(ren.free_head, (head + c) % PRF_NUM, "each register handed out leaves the free list");
  v_is<uint32_t>(ren.free_tail, (uint32_t)old.free_tail, "nothing is released without a commit");
  for (int i = 0; i < PRF_NUM; i++) v_eq(ren.free_list[i], old.free_list[i], "nothing is released without a commit");
  for (int r = 0; r < ARF_NUM + 1; r++) v_eq(ren.arch_RAT[r], old.arch_RAT[r], "the committed mapping changes only at commit");
  v_is<bool>(ren2dec.ready, all, "the next group is taken when this one is gone");
  uint32_t clear = dec_bcast.clear_mask;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool stay = old.inst_valid[i] && !fire[i];
    v_is<bool>(ren.inst_valid[i], all ? (bool)dec2ren.valid[i] : stay, "an instruction leaves exactly when it is renamed and accepted");
    if (all || stay) {
      v_eq(ren.inst_r[i].dest_areg, all ? dec2ren.uop[i].dest_areg : old.inst_r[i].dest_areg, "a waiting instruction is unchanged");
      v_eq(ren.inst_r[i].src1_areg, all ? dec2ren.uop[i].src1_areg : old.inst_r[i].src1_areg, "a waiting instruction is unchanged");
      v_eq(ren.inst_r[i].src2_areg, all ? dec2ren.uop[i].src2_areg : old.inst_r[i].src2_areg, "a waiting instruction is unchanged");
      v_eq(ren.inst_r[i].dest_en, all ? dec2ren.uop[i].dest_en : old.inst_r[i].dest_en, "a waiting instruction is unchanged");
      v_eq(ren.inst_r[i].type, all ? dec2ren.uop[i].type : old.inst_r[i].type, "a waiting instruction is unchanged");
      v_eq(ren.inst_r[i].br_id, all ? dec2ren.uop[i].br_id : old.inst_r[i].br_id, "a waiting instruction is unchanged");
      v_is<uint32_t>(ren.inst_r[i].br_mask, (all ? (uint32_t)dec2ren.uop[i].br_mask : (uint32_t)old.inst_r[i].br_mask) & ~clear, "a waiting instruction is unchanged except for resolved branches");
    }
  }
}
extern "C" void reset() {
  v_in(ren.spec_RAT, "m"); v_in(ren.arch_RAT, "a"); v_in(ren.free_list, "f"); ren.init();
  bool seen[PRF_NUM] = {}; int n = (ren.free_tail + PRF_NUM - ren.free_head) % PRF_NUM;
  V_REQUIRE(n == POOL, "at reset every unmapped register is free");
  for (int r = 0; r < ARF_NUM + 1; r++) { V_REQUIRE(ren.spec_RAT[r] == ren.arch_RAT[r] && !seen[ren.spec_RAT[r]], "at reset registers have distinct mappings"); seen[ren.spec_RAT[r]] = true; }
  for (int k = 0; k < n; k++) { int p = ren.free_list[(ren.free_head + k) % PRF_NUM]; V_REQUIRE(p > 0 && p < PRF_NUM && !seen[p], "at reset free registers are distinct and unmapped"); seen[p] = true; }
  V_REQUIRE(ren.spec_RAT[0] == 0, "register zero is mapped to physical register zero");
  V_REQUIRE(ren.free_head_commit == ren.free_head, "at reset nothing is in flight");
}
