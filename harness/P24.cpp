// P24: every attribute two record formats share survives the hand-over between them.
// ENTRY: handover 16
// ENTRY: classify 32
#include "vh.h"
#include "back-end/include/IO.h"
#include "back-end/include/Rob.h"
#include "back-end/include/IssueQueue.h"
#include "back-end/include/Dispatch.h"
#include "back-end/Exu/include/ExuTypes.h"
long long sim_time;
#define ATTRIBUTES(X) X(diag_val) X(dest_areg) X(src1_areg) X(src2_areg) X(dest_preg) X(src1_preg) X(src2_preg) X(old_dest_preg) X(src1_rdata) X(src2_rdata) X(result) X(pc) X(inst) X(ftq_resp_valid) X(ftq_entry_valid) X(ftq_pred_taken) X(ftq_next_pc) X(ftq_idx) X(ftq_offset) X(ftq_is_last) X(mispred) X(br_taken) X(type) X(dest_en) X(src1_en) X(src2_en) X(src1_busy) X(src2_busy) X(is_atomic) X(src1_is_pc) X(src2_is_imm) X(func3) X(func7) X(imm) X(br_id) X(br_mask) X(csr_idx) X(rob_idx) X(rob_flag) X(stq_idx) X(stq_flag) X(ldq_idx) X(expect_mask) X(cplt_mask) X(page_fault_inst) X(page_fault_load) X(page_fault_store) X(illegal_inst) X(is_ret) X(flush_pipe) X(op)
// the attributes of `from` and `to`, wherever both have one of that name
template <class A, class B> static void shared(const A &from, const B &to, const char *rule) {
  int n = 0;
#define SAME(f) if constexpr (requires { from.f; to.f; }) { v_is<uint64_t>((uint64_t)(uint32_t)to.f, (uint64_t)(uint32_t)from.f, rule); n++; }
  ATTRIBUTES(SAME)
#define META(m, f) if constexpr (requires { from.m.f; to.m.f; }) v_is<uint64_t>((uint64_t)to.m.f, (uint64_t)from.m.f, rule);
  META(dbg, instruction) META(dbg, pc) META(dbg, is_mmio) META(dbg, difftest_skip) META(dbg, inst_idx) META(tma, is_cache_miss) META(tma, mem_commit_is_load) META(tma, mem_commit_is_store)
  V_REQUIRE(n >= 4, "the two formats share attributes");
}
// formats that carry a fault which the source cannot have start without it
template <class B> static void clean(const B &to, const char *rule) { v_is<bool>(to.page_fault_load, false, rule); v_is<bool>(to.page_fault_store, false, rule); }
template <class A> static A any(const char *n) { A a; v_in(a, n); if constexpr (requires { a.type; }) a.type = (decltype(a.type))(v_any<uint8_t>("type") % INST_TYPE_COUNT); if constexpr (requires { a.op; }) a.op = (decltype(a.op))(v_any<uint8_t>("op") % MAX_UOP_TYPE); return a; }
extern "C" void handover(int part) {
  __v_noexit(1);
  switch (part) {
  case 0: { auto a = any<DecRenIO::DecRenInst>("a"); shared(a, RenDisIO::RenDisInst::from_dec_ren_inst(a), "decode to rename"); break; }
  case 1: { auto a = any<RenDisIO::RenDisInst>("a"); shared(a, Dispatch::DispatchInst::from_ren_dis_inst(a), "rename to dispatch"); break; }
  case 2: { auto a = any<Dispatch::DispatchInst>("a"); shared(a, a.to_dis_rob_inst(), "dispatch to retirement queue"); break; }
  case 3: { auto a = any<DisRobIO::DisRobInst>("a"); auto b = RobStoredInst::from_dis_rob_inst(a); shared(a, b, "retirement queue entry"); clean(b, "a new entry has no access fault"); break; }
  case 4: { auto a = any<RobStoredInst>("a"); shared(a, a.to_commit_inst(), "retirement"); break; }
  case 5: { auto a = any<RobCommitIO::RobCommitInst>("a"); bool v = v_any<bool>("v"); auto b = a.to_inst_entry(v); shared(a, b.uop, "retired instruction record"); v_is<bool>(b.valid, v, "retired instruction record"); break; }
  case 6: { auto a = any<DisIssIO::DisIssUop>("a"); shared(a, IqStoredUop::from_dis_iss_uop(a), "dispatch to issue queue"); break; }
  case 7: { auto a = any<IqStoredUop>("a"); shared(a, a.to_iss_prf_uop(), "issue queue to operand read"); break; }
  case 8: { auto a = any<IssPrfIO::IssPrfUop>("a"); shared(a, PrfExeIO::PrfExeUop::from_iss_prf_uop(a), "operand read to execution"); break; }
  case 9: { auto a = any<PrfExeIO::PrfExeUop>("a"); auto b = ExuInst::from_prf_exe_uop(a); shared(a, b, "execution"); v_is<bool>(b.page_fault_inst || b.flush_pipe || b.mispred || b.br_taken, false, "execution starts without outcome"); break; }
  case 10: { auto a = any<ExuInst>("a"); shared(a, a.to_exe_prf_wb_uop(), "execution to register write"); break; }
  case 11: { auto a = any<ExuInst>("a"); auto b = a.to_exu_rob_uop(); shared(a, b, "execution to retirement queue"); clean(b, "an execution result has no access fault"); break; }
  case 12: { auto a = any<ExuInst>("a"); auto b = a.to_exe_lsu_req_uop(); shared(a, b, "execution to memory unit"); shared(b, b.to_micro_op(), "execution to memory unit"); break; }
  case 13: { auto a = any<MicroOp>("a"); shared(a, ExePrfIO::ExePrfWbUop::from_micro_op(a), "memory result to register write"); shared(a, ExuRobIO::ExuRobUop::from_micro_op(a), "memory result to retirement queue"); break; }
  case 14: { auto a = any<MicroOp>("a"); auto b = LsuExeIO::LsuExeRespUop::from_micro_op(a); shared(a, b, "memory unit to execution"); shared(b, b.to_micro_op(), "memory unit to execution"); break; }
  case 15: { auto a = any<InstInfo>("a"); shared(a, MicroOp(a), "instruction to operation"); break; }
  }
}
// the classes of an instruction, in every whole-instruction format
template <class A> static void classes(InstType t) {
  A a; v_in(a, "instruction"); a.type = (decltype(a.type))t; uint8_t f7 = v_any<uint8_t>("func7") & 127; a.func7 = f7; bool amo = t == AMO, lr = amo && f7 >> 2 == 2, sc = amo && f7 >> 2 == 3;
  bool pf = v_any<bool>("pf"), il = v_any<bool>("il"), pl = false, ps = false, fp = false; a.page_fault_inst = pf; a.illegal_inst = il; if constexpr (requires { a.page_fault_load; }) { a.page_fault_load = pl = v_any<bool>("pl"); a.page_fault_store = ps = v_any<bool>("ps"); } if constexpr (requires { a.flush_pipe; }) a.flush_pipe = fp = v_any<bool>("fp");
  bool traps = pf || pl || ps || il || t == ECALL; bool ctl = t == CSR || t == ECALL || t == EBREAK || t == MRET || t == SRET || t == SFENCE_VMA || t == FENCE_I;
  v_is<bool>(is_load(a), t == LOAD || (amo && !sc), "the same instructions are loads in every format"); v_is<bool>(is_store(a), t == STORE || (amo && !lr), "the same instructions are stores in every format");
  v_is<bool>(is_exception(a), traps, "the same instructions trap in every format"); v_is<bool>(is_flush_inst(a), ctl || traps || fp, "the same instructions serialise in every format");
}
extern "C" void classify(int t) { __v_noexit(1); if (t >= INST_TYPE_COUNT) return; InstType k = (InstType)t; classes<RobCommitIO::RobCommitInst>(k); classes<DisRobIO::DisRobInst>(k); classes<RenDisIO::RenDisInst>(k); classes<DecRenIO::DecRenInst>(k); classes<InstInfo>(k); v_is<bool>(is_branch(k), k == BR || k == JALR, "branches are known as such"); v_is<int>(decode_inst_type(encode_inst_type(k)), k, "the class survives its encoding"); }
