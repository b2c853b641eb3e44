// Rig: issue stage, register file and execution units wired as in the core.
#pragma once
#include "isu.h"
#include "back-end/Prf.cpp"
#include "back-end/Exu/Exu.cpp"
namespace bk {
using namespace isr;
static PrfExeIO prf2exe; static ExePrfIO exe2prf; static FtqPrfPcReqIO pc_req; static FtqPrfPcRespIO pc_resp; static CsrExeIO csr2exe; static LsuExeIO lsu2exe; static CsrStatusIO csr_status; static ExeCsrIO exe2csr; static ExeLsuIO exe2lsu; static ExuIdIO exu2id; static ExuRobIO exu2rob;
static Prf prf(&ctx); static Exu exu(&ctx);
// results of floating-point units are left open (P40 covers them)
static void fp_any(FPUSoftfloat *, ExuInst &i) { i.result = __v_uf("fp", 32, (unsigned long long)i.src1_rdata, (unsigned long long)i.src2_rdata, (unsigned long long)i.func7, (unsigned long long)i.func3); }
static void wire_up() {
  __v_model("FPUSoftfloat::impl_compute", (void *)fp_any);
  isr::boot();
  prf.in = {&iss2prf, &exe2prf, &dec_bcast, &rob_bcast, &pc_resp}; prf.out = {&prf2exe, &prf_awake, &pc_req};
  auto *f = exu.in.fu2exu; auto *g = exu.out.exu2fu; exu.in = {&prf2exe, &dec_bcast, &rob_bcast, &csr2exe, &lsu2exe, &csr_status, f}; exu.out = {&exe2prf, &exe2iss, &exe2csr, &exe2lsu, &exu2id, &exu2rob, g};
  prf.init(); exu.units.clear(); exu.port_mappings.clear(); exu.init(); rob_bcast = {}; dec_bcast = {}; lsu2exe = {}; dis2iss = {};
}
static void comb() {
  isu.comb_begin(); prf.comb_begin(); exu.comb_begin(); prf.comb_complete(); prf.comb_awake(); prf.comb_write(); isu.comb_ready(); exu.comb_to_csr(); exu.comb_exec(); exu.comb_ready(); isu.comb_issue();
  prf.comb_req_ftq(); prf.comb_read(); isu.comb_awake(); isu.comb_calc_latency_next(); isu.comb_enq(); isu.comb_flush(); prf.comb_pipeline(); exu.comb_pipeline();
}
static void edge() { isu.seq(); exu.seq(); prf.seq(); sim_time++; dis2iss = {}; }
static void insert(int iq, int lane, UopType op, int dest, int src1, bool busy1, int src2, bool busy2, int func7, int rob, const char *name) {
  auto &r = dis2iss.req[iq][lane]; v_in(r.uop, name); r.valid = true; auto &u = r.uop; u.op = encode_uop_type(op); u.dest_en = dest >= 0; u.dest_preg = dest < 0 ? 0 : dest; u.src1_en = src1 >= 0; u.src1_preg = src1 < 0 ? 0 : src1; u.src1_busy = busy1; u.src2_en = src2 >= 0; u.src2_preg = src2 < 0 ? 0 : src2; u.src2_busy = busy2;
  u.func7 = func7; u.rob_idx = rob; u.src1_is_pc = false; u.src2_is_imm = false; u.br_mask = 0; u.func3 = 0;
}
}
