// Rig around the issue stage: real Isu with unknown contents at chosen slots.
#pragma once
#include "vh.h"
#include "back-end/Isu.cpp"
namespace isr {
static DisIssIO dis2iss; static PrfAwakeIO prf_awake; static ExeIssIO exe2iss; static RobBroadcastIO rob_bcast; static DecBroadcastIO dec_bcast;
static IssPrfIO iss2prf; static IssDisIO iss2dis; static IssAwakeIO iss_awake; static SimContext ctx; static Isu isu(&ctx);
static void boot() { isu.in = {&dis2iss, &prf_awake, &exe2iss, &rob_bcast, &dec_bcast}; isu.out = {&iss2prf, &iss2dis, &iss_awake}; isu.init(); }
// unknown instruction in a slot, kept consistent with the queue's bookkeeping
static void hold(int iq, int slot, UopType op, int src1, bool busy1, int src2, bool busy2, int dest, int rob, const char *name) {
  IssueQueue &q = isu.iqs[iq]; IqStoredEntry &e = q.entry[slot];
  v_in(e.uop, name); e.valid = true; e.uop.op = encode_uop_type(op); e.uop.src1_preg = src1; e.uop.src2_preg = src2; e.uop.dest_preg = dest; e.uop.rob_idx = rob;
  e.uop.src1_en = src1 >= 0; e.uop.src2_en = src2 >= 0; e.uop.src1_preg = src1 < 0 ? 7 : src1; e.uop.src2_preg = src2 < 0 ? 7 : src2; e.uop.src1_busy = busy1; e.uop.src2_busy = busy2; e.uop.dest_en = dest >= 0; e.uop.dest_preg = dest < 0 ? 0 : dest;
  q.count++;
  if (e.uop.src1_en && busy1) q.wake_matrix_src1[q.matrix_row_base(e.uop.src1_preg) + q.slot_word(slot)] |= q.slot_bit(slot);
  if (e.uop.src2_en && busy2) q.wake_matrix_src2[q.matrix_row_base(e.uop.src2_preg) + q.slot_word(slot)] |= q.slot_bit(slot);
}
template <class A, class B> static void same_uop(const A &a, const B &b, const char *rule) {
#define F(x) v_is<uint32_t>((uint32_t)a.x, (uint32_t)b.x, v_rule(rule, #x));
  F(dest_preg) F(src1_preg) F(src2_preg) F(ftq_idx) F(ftq_offset) F(is_atomic) F(dest_en) F(src1_en) F(src2_en) F(src1_is_pc) F(src2_is_imm) F(func3) F(func7) F(imm) F(br_id) F(br_mask) F(csr_idx) F(rob_idx) F(stq_idx) F(stq_flag) F(ldq_idx) F(rob_flag) F(op)
#undef F
}
}
