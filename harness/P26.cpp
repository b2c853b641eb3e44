// Clock edge and start of cycle of the core's modules: every element of registered state takes its computed next value
// at the edge, and the next value starts out as the current one. All register contents are unknown.
// ENTRY: edge 9
// ENTRY: begin 9
// FLAGS: -I$VERIF/harness/stubcpu
#include "back.h"
#include "back-end/Ren.cpp"
#include "back-end/Dispatch.cpp"
#include "back-end/Idu.cpp"
#include "back-end/Exu/Csr.cpp"
#include "back-end/InstructionBuffer.cpp"
#include "back-end/PreIduQueue.cpp"
#include "back-end/Rob.cpp"
long long sim_time;
using namespace bk;
static const char *EDGE = "an element of registered state takes its next value at the clock edge", *BEGIN = "an element not mentioned in a cycle keeps its value", *STILL = "starting a cycle leaves current state alone";
static Ren ren(&ctx); static Dispatch dis(&ctx); static Idu idu(&ctx, MAX_BR_PER_CYCLE); static Csr csr; static PreIduQueue pre(&ctx); static Rob rob(&ctx);
static FrontPreIO f2p; static IduConsumeIO consume; static PreFrontIO p2f; static PreIssueIO issue; static CsrInterruptInjectIO inject;
#define RENP(X) X(ren, inst_r) X(ren, inst_valid) X(ren, arch_RAT) X(ren, spec_RAT) X(ren, RAT_checkpoint) X(ren, free_list) X(ren, free_head) X(ren, free_head_commit) X(ren, free_tail) X(ren, alloc_checkpoint_head)
#define DISP(X) X(dis, inst_r) X(dis, inst_valid) X(dis, busy_table)
#define IDUP(X) X(idu, now_br_mask) X(idu, br_mask_cp) X(idu, tag_vec) X(idu, br_latch)
#define CSRP(X) X(csr, CSR_RegFile) X(csr, privilege) X(csr, csr_idx) X(csr, csr_wdata) X(csr, csr_wcmd) X(csr, csr_we)
#define PREP(X) X(pre, ftq_lookup_entries) X(pre, ftq_train_meta_fifo) X(pre, ftq_valid) X(pre, ftq_head) X(pre, ftq_tail) X(pre, ftq_count)
#define ROBP(X) X(rob, entry) X(rob, enq_ptr) X(rob, deq_ptr) X(rob, enq_flag) X(rob, deq_flag)
#define ISUP(X) X(isu, mul_wake_pipe) X(isu, div_wake_slots) X(isu, fp_wake_slots)
#define PRFP(X) X(prf, inst_r)
#define EXUP(X) X(exu, fu_inst_r)
#define ANY_NEXT(o, f) v_in(o.f##_1, "next_" #f); v_in(o.f, "current_" #f); static decltype(o.f) k_##f; __builtin_memcpy((void *)&k_##f, (const void *)&o.f##_1, sizeof k_##f);
#define TAKEN(o, f) v_eq(o.f, k_##f, v_rule(EDGE, #o " " #f));
#define ANY_CUR(o, f) v_in(o.f, "current_" #f); v_in(o.f##_1, "stale_" #f); static decltype(o.f) k_##f; __builtin_memcpy((void *)&k_##f, (const void *)&o.f, sizeof k_##f);
#define KEPT(o, f) v_eq(o.f##_1, k_##f, v_rule(BEGIN, #o " " #f)); v_eq(o.f, k_##f, v_rule(STILL, #o " " #f));
#define CASE(n, P, o) case n: { P(ANY_NEXT) o.seq(); P(TAKEN) break; }
#define CASEB(n, P, o) case n: { P(ANY_CUR) o.comb_begin(); P(KEPT) break; }
static void boot_all() {
  wire_up(); csr.in.interrupt_inject = &inject; pre.in.front2pre = &f2p; pre.out.issue = &issue; pre.out.pre2front = &p2f; pre.init();
}
extern "C" void edge(int part) {
  boot_all();
  switch (part) {
    CASE(0, RENP, ren) CASE(1, DISP, dis) CASE(2, IDUP, idu) CASE(3, CSRP, csr) CASE(4, PREP, pre) CASE(5, ROBP, rob) CASE(6, ISUP, isu) CASE(8, EXUP, exu)
  case 7: { PRFP(ANY_NEXT) v_in(prf.reg_file_1, "next_reg"); static decltype(prf.reg_file) k; for (int i = 0; i < PRF_NUM; i++) k[i] = prf.reg_file_1[i]; k[0] = 0; prf.seq(); PRFP(TAKEN) v_eq(prf.reg_file, k, v_rule(EDGE, "register file")); break; }
  }
}
extern "C" void begin(int part) {
  boot_all();
  switch (part) {
    CASEB(0, RENP, ren) CASEB(1, DISP, dis) CASEB(2, IDUP, idu) CASEB(3, CSRP, csr) CASEB(4, PREP, pre) CASEB(5, ROBP, rob) CASEB(6, ISUP, isu) CASEB(8, EXUP, exu)
  case 7: { PRFP(ANY_CUR) v_in(prf.reg_file, "reg"); static decltype(prf.reg_file) k; for (int i = 0; i < PRF_NUM; i++) k[i] = prf.reg_file[i]; prf.comb_begin(); PRFP(KEPT) v_eq(prf.reg_file_1, k, v_rule(BEGIN, "register file")); break; }
  }
}
