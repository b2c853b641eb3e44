// P42: where fetch continues after a squash, and what a squash does to address translation, at the boundary of the core.
// FLAGS: -I$VERIF/harness/stubio -I$VERIF/harness/stubaxi -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: redirect
// ENTRY: retired 2
// ENTRY: translation 4
// ENTRY: status
#define private public
#include "vh.h"
#include "back-end/BackTop.cpp"
#define RAW(T, n) alignas(64) static char n##_raw[sizeof(T)]; static T *n = (T *)n##_raw
RAW(BackTop, top); RAW(PreIduQueue, pre_u); RAW(Idu, idu_u); RAW(Ren, ren_u); RAW(Dispatch, dis_u); RAW(Isu, isu_u); RAW(Prf, prf_u); RAW(Exu, exu_u); RAW(Csr, csr_u); RAW(Rob, rob_u); RAW(RealLsu, lsu_u); RAW(TlbMmu, tlb_u);
static int n_flush, n_cancel, n_ask; static MMULsuIO answer;
static void on_flush(TlbMmu *) { n_flush++; }
static void on_cancel(TlbMmu *) { n_cancel++; }
static void on_ask(TlbMmu *, const LsuMMUIO &, MMULsuIO &r) { n_ask++; r = answer; }
static void on_status(Csr *) { v_in(top->csr_status, "status"); }
static void boot() {
  __v_model("TlbMmu::flush", (void *)on_flush); __v_model("TlbMmu::cancel_pending_walk", (void *)on_cancel); __v_model("TlbMmu::translate_lsu_ports", (void *)on_ask); __v_model("Csr::comb_csr_status", (void *)on_status); n_flush = n_cancel = n_ask = 0;
  top->pre = pre_u; top->idu = idu_u; top->rename = ren_u; top->dis = dis_u; top->isu = isu_u; top->prf = prf_u; top->exu = exu_u; top->csr = csr_u; top->rob = rob_u; top->lsu = lsu_u; new (&top->dtlb_mmu) std::unique_ptr<TlbMmu>(tlb_u);
  rob_u->out.rob_bcast = &top->rob_bcast; rob_u->out.rob_commit = &top->rob_commit; idu_u->out.dec_bcast = &top->dec_bcast; csr_u->out.csr2front = &top->csr2front; csr_u->out.csr_status = &top->csr_status;
  v_in(top->rob_bcast, "retire"); v_in(top->dec_bcast, "branch"); v_in(top->csr2front, "csr"); v_in(idu_u->br_latch, "latch"); v_in(top->pre2front, "queue"); auto &b = top->rob_bcast; V_ASSUME(!(b.mret && b.sret)); V_ASSUME(!((b.mret || b.sret) && b.exception));
  auto &o = top->out; o.mispred = v_any<bool>("old_m"); o.stall = v_any<bool>("old_s"); o.flush = v_any<bool>("old_f"); o.fence_i = v_any<bool>("old"); o.itlb_flush = v_any<bool>("old"); o.redirect_pc = v_any<uint32_t>("old_pc");
}
extern "C" void redirect(int) {
  boot(); auto b = top->rob_bcast; top->comb(); auto &o = top->out;
  v_is<bool>(o.flush, b.flush, "a retirement squash is passed on"); v_is<bool>(o.fence_i, b.fence_i, "an instruction fence is passed on"); v_is<bool>(o.itlb_flush, b.fence, "a translation fence is passed on");
  v_is<bool>(o.mispred, b.flush || top->dec_bcast.mispred, "fetch is redirected exactly on a squash"); if (!b.flush) v_is<bool>(o.stall, !top->pre2front.ready, "fetch waits while the core has no room");
  if (b.flush) { if (b.mret || b.sret) v_is<uint32_t>(o.redirect_pc, top->csr2front.epc, "a trap return continues at the saved address"); else if (b.exception) v_is<uint32_t>(o.redirect_pc, top->csr2front.trap_pc, "a trap continues at its vector"); else v_is<uint32_t>(o.redirect_pc, b.pc + 4, "any other retirement squash continues after the instruction"); }
  else if (top->dec_bcast.mispred) v_is<uint32_t>(o.redirect_pc, idu_u->br_latch.redirect_pc, "a mispredicted branch continues at its resolved successor");
}
extern "C" void retired(int part) {
  boot(); top->rob_bcast.flush = part; static RobCommitIO was; v_in(was, "retired"); top->rob_commit = was; v_in(top->out.commit_entry, "held"); top->comb(); auto &o = top->out;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    auto &e = o.commit_entry[i]; auto &u = was.commit_entry[i]; const char *R = "exactly the retired instructions are reported"; v_is<bool>(e.valid, u.valid, R); if (!u.valid) continue;
    v_is<uint32_t>(e.uop.dest_areg, u.uop.dest_areg, R); v_is<uint32_t>(e.uop.dest_preg, u.uop.dest_preg, R); v_is<bool>(e.uop.dest_en, u.uop.dest_en, R); v_is<bool>(e.uop.br_taken, u.uop.br_taken, R); v_is<uint32_t>(e.uop.rob_idx, u.uop.rob_idx, R); v_is<uint32_t>(e.uop.ftq_idx, u.uop.ftq_idx, R); v_is<uint32_t>(e.uop.ftq_offset, u.uop.ftq_offset, R);
    v_is<uint32_t>(e.uop.diag_val, part ? (uint32_t)o.redirect_pc : (uint32_t)u.uop.diag_val, "the reported successor is where execution continues");
  }
}
extern "C" void translation(int part) {
  boot(); if (part & 1) top->dtlb_mmu.release(); auto &b = top->rob_bcast; v_in(answer, "answer"); v_in(top->mmu2lsu_io, "stale"); if (part & 2) { top->comb(); } else top->comb_lsu_mmu(); auto &r = top->mmu2lsu_io; bool squash = b.flush || top->dec_bcast.mispred, none = part & 1;
  v_is<int>(n_flush, !none && b.fence, "a translation fence drops the data translations"); if (squash && !b.fence && !none) v_is<int>(n_cancel, 1, "a squash abandons the walk in flight"); if (!squash) v_is<int>(n_cancel, 0, "a walk goes on unless squashed"); v_is<int>(n_ask, !none && !b.fence && !squash, "requests are translated in every other cycle");
  if (n_ask) v_eq(r, answer, "the answer reaches the load/store unit"); const char *R = "no answer is left over from an earlier cycle"; if (!n_ask) { for (auto &x : r.ldq_resp) v_is<bool>(x.valid, false, R); for (auto &x : r.stq_resp) v_is<bool>(x.valid, false, R); }
}
extern "C" void status(int) { boot(); top->comb_csr_status(); auto &c = top->csr_status; auto &o = top->out; const char *R = "the control state in force is published"; v_is<uint32_t>(o.sstatus, c.sstatus, R); v_is<uint32_t>(o.mstatus, c.mstatus, R); v_is<uint32_t>(o.satp, c.satp, R); v_is<uint32_t>(o.privilege, c.privilege, R); }
