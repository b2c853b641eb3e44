// P24: what fetch hands to the core, and what the core hands back for training, at the top of the machine.
// FLAGS: -I$VERIF/harness/stubaxi
// ENTRY: to_core 8
// ENTRY: from_core 20
#include "vh.h"
#include "rv_simu_mmu_v2.cpp"
alignas(64) static char machine[sizeof(SimCpu)]; alignas(64) static char csr_unit[sizeof(Csr)]; static CsrStatusIO csr_io; static SimCpu *cpu; static bool asked, read_enable, refetch; static uint32_t refetch_to;
static void fetch(FrontTop *f) { asked = true; read_enable = f->in.FIFO_read_enable; refetch = f->in.refetch; refetch_to = f->in.refetch_address; v_in(f->out, "group"); }
static void boot() { __v_noexit(1); cpu = (SimCpu *)machine; __v_model("FrontTop::step_bpu", (void *)fetch); cpu->back.csr = (Csr *)csr_unit; cpu->back.csr->out.csr_status = &csr_io; asked = false; }
extern "C" void to_core(int part) {
  boot(); FrontPreIO before; v_in(before, "held"); (FrontPreIO &)cpu->back.in = before; v_in(cpu->front.in, "front_in"); bool stall = part & 1, mis = part & 2, flush = part & 4; auto &o = cpu->back.out; o.stall = stall; o.mispred = mis; o.flush = flush; o.redirect_pc = v_any<uint32_t>("redirect"); o.itlb_flush = v_any<bool>("itlb"); o.fence_i = v_any<bool>("fencei"); o.fire = nullptr;
  cpu->front_cycle(); auto &f = cpu->front.out; auto &b = cpu->back.in; const char *R = "fetch to core"; V_REQUIRE(asked, "fetch runs every cycle");
  bool moves = !stall || mis || flush; v_is<bool>(read_enable, moves, "a group is taken from fetch only when the core can have it"); v_is<bool>(refetch, mis || flush, "a redirect reaches fetch"); if (mis || flush) v_is<uint32_t>(refetch_to, o.redirect_pc, "a redirect reaches fetch"); v_is<bool>(cpu->front.in.itlb_flush, o.itlb_flush, "a translation flush reaches fetch"); v_is<bool>(cpu->front.in.fence_i, o.fence_i, "an instruction cache flush reaches fetch"); v_is<bool>(b.front_stall, f.commit_stall, "back-pressure of training reaches the core");
  if (!moves) { const char *H = "a group the core could not take is kept"; for (int j = 0; j < FETCH_WIDTH; j++) { v_is<bool>(b.valid[j], before.valid[j], H); v_is<uint32_t>(b.inst[j], before.inst[j], H); v_is<uint32_t>(b.pc[j], before.pc[j], H); v_is<bool>(b.page_fault_inst[j], before.page_fault_inst[j], H); v_is<bool>(b.predict_dir[j], before.predict_dir[j], H); v_is<uint32_t>(b.predict_next_fetch_address[j], before.predict_next_fetch_address[j], H); } return; }
  bool open = f.FIFO_valid; for (int j = 0; j < FETCH_WIDTH; j++) {
    bool v = open && f.inst_valid[j]; v_is<bool>(b.valid[j], v, "the core gets the instructions up to the first predicted jump"); if (v && f.predict_dir[j]) open = false;
    v_is<uint32_t>(b.inst[j], f.instructions[j], R); v_is<uint32_t>(b.pc[j], f.pc[j], R); v_is<bool>(b.page_fault_inst[j], f.page_fault_inst[j], R); v_is<bool>(b.predict_dir[j], f.predict_dir[j], R); v_is<uint32_t>(b.predict_next_fetch_address[j], f.predict_next_fetch_address, R); v_is<bool>(b.alt_pred[j], f.alt_pred[j], R); v_is<uint32_t>(b.altpcpn[j], f.altpcpn[j], R); v_is<uint32_t>(b.pcpn[j], f.pcpn[j], R);
    v_is<bool>(b.sc_used[j], f.sc_used[j], R); v_is<bool>(b.sc_pred[j], f.sc_pred[j], R); v_is<int32_t>(b.sc_sum[j], f.sc_sum[j], R); for (int t = 0; t < BPU_SCL_META_NTABLE; t++) v_is<uint32_t>(b.sc_idx[j][t], f.sc_idx[j][t], R); v_is<bool>(b.loop_used[j], f.loop_used[j], R); v_is<bool>(b.loop_hit[j], f.loop_hit[j], R); v_is<bool>(b.loop_pred[j], f.loop_pred[j], R); v_is<uint32_t>(b.loop_idx[j], f.loop_idx[j], R); v_is<uint32_t>(b.loop_tag[j], f.loop_tag[j], R);
    for (int k = 0; k < 4; k++) { v_is<uint32_t>(b.tage_idx[j][k], f.tage_idx[j][k], R); v_is<uint32_t>(b.tage_tag[j][k], f.tage_tag[j][k], R); }
  }
}
// what training is told about each retired instruction, per instruction class
extern "C" void from_core(int part) {
  boot(); InstType t = (InstType)part; v_in(cpu->front.in, "front_in"); auto &o = cpu->back.out; o.mispred = v_any<bool>("mis"); o.flush = v_any<bool>("flush"); o.redirect_pc = v_any<uint32_t>("redirect"); o.itlb_flush = v_any<bool>("itlb"); o.fence_i = v_any<bool>("fencei"); v_in(cpu->back.ftq_commit_info, "record"); csr_io.satp = v_any<uint32_t>("satp");
  for (int i = 0; i < COMMIT_WIDTH; i++) { v_in(o.commit_entry[i].uop, v_name("retired", i)); o.commit_entry[i].uop.type = i ? (InstType)((part + 3) % INST_TYPE_COUNT) : t; o.commit_entry[i].valid = v_any<bool>(v_name("valid", i)); }
  cpu->back2front_comb(); auto &f = cpu->front.in; const char *R = "core to training"; V_REQUIRE(f.csr_status == &csr_io, "fetch translates with the core's control state"); v_is<bool>(f.itlb_flush, o.itlb_flush, "a translation flush reaches fetch"); v_is<bool>(f.fence_i, o.fence_i, "an instruction cache flush reaches fetch"); if (o.mispred || o.flush) v_is<uint32_t>(f.refetch_address, o.redirect_pc, "a redirect reaches fetch");
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    auto &e = o.commit_entry[i]; auto &u = e.uop; auto &r = cpu->back.ftq_commit_info.resp[i]; v_is<bool>(f.back2front_valid[i], e.valid, "exactly the retired instructions train"); if (!e.valid) continue;
    bool jal = u.type == JAL, jalr = u.type == JALR, br = u.type == BR; v_is<bool>(f.actual_dir[i], jal || jalr || u.br_taken, "training learns the actual direction"); v_is<uint32_t>(f.actual_target[i], jal || jalr || br ? (uint32_t)u.diag_val : (uint32_t)r.pc + 4, "training learns the actual successor");
    int kind = br ? BR_DIRECT : jalr ? (u.is_ret ? BR_RET : BR_IDIRECT) : jal ? (u.dest_en && u.dest_areg == 1 ? BR_CALL : BR_JAL) : BR_NONCTL; v_is<int>(f.actual_br_type[i], kind, "training learns the kind of transfer");
    v_is<uint32_t>(f.predict_base_pc[i], r.pc, R); v_is<bool>(f.predict_dir[i], r.pred_taken, R); v_is<bool>(f.alt_pred[i], r.alt_pred, R); v_is<uint32_t>(f.altpcpn[i], r.altpcpn, R); v_is<uint32_t>(f.pcpn[i], r.pcpn, R); v_is<bool>(f.sc_used[i], r.sc_used, R); v_is<bool>(f.sc_pred[i], r.sc_pred, R); v_is<int32_t>(f.sc_sum[i], r.sc_sum, R); for (int k = 0; k < BPU_SCL_META_NTABLE; k++) v_is<uint32_t>(f.sc_idx[i][k], r.sc_idx[k], R);
    v_is<bool>(f.loop_used[i], r.loop_used, R); v_is<bool>(f.loop_hit[i], r.loop_hit, R); v_is<bool>(f.loop_pred[i], r.loop_pred, R); v_is<uint32_t>(f.loop_idx[i], r.loop_idx, R); v_is<uint32_t>(f.loop_tag[i], r.loop_tag, R); for (int k = 0; k < 4; k++) { v_is<uint32_t>(f.tage_idx[i][k], r.tage_idx[k], R); v_is<uint32_t>(f.tage_tag[i][k], r.tage_tag[k], R); }
  }
}
