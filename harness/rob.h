// The reorder buffer with its ports.
#pragma once
#include "vh.h"
#include "back-end/Rob.cpp"
long long sim_time;
namespace rb {
static DisRobIO dis2rob; static CsrRobIO csr2rob; static LsuRobIO lsu2rob; static DecBroadcastIO dec_bcast; static ExuRobIO exu2rob; static FtqRobPcRespIO ftq_resp; static wire<1> front_stall;
static RobDisIO rob2dis; static RobCsrIO rob2csr; static RobCommitIO rob_commit; static RobBroadcastIO rob_bcast; static FtqRobPcReqIO ftq_req; static SimContext ctx; static Rob rob(&ctx);
static void boot() { rob.in = {&dis2rob, &csr2rob, &lsu2rob, &dec_bcast, &exu2rob, &ftq_resp, &front_stall}; rob.out = {&rob2dis, &rob2csr, &rob_commit, &rob_bcast, &ftq_req}; rob.init(); rob.stall_cycle = 0; ctx = {}; }
// window: lines from `head`, `lines` of them in use
static void window(int head, int lines) { rob.deq_ptr = head; rob.enq_ptr = (head + lines) % ROB_LINE_NUM; rob.deq_flag = false; rob.enq_flag = head + lines >= ROB_LINE_NUM; }
static void fill(int bank, int line, const char *name, InstType t) { auto &e = rob.entry[bank][line]; v_in(e.uop, name); e.valid = true; e.uop.type = encode_inst_type(t); e.uop.rob_idx = make_rob_idx(line, bank); }
static void comb() { rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit(); rob.comb_complete(); rob.comb_branch(); rob.comb_fire(); rob.comb_flush(); }
static void quiet() { for (auto &v : dis2rob.dis_fire) v = false; for (auto &e : exu2rob.entry) e.valid = false; csr2rob.interrupt_req = false; lsu2rob.committed_store_pending = false; dec_bcast.mispred = false; front_stall = false; ftq_resp.resp[0].valid = true; }
// the property's own classification
static bool faults(const RobStoredInst &u) { return u.page_fault_inst || u.page_fault_load || u.page_fault_store; }
static bool traps(const RobStoredInst &u, InstType t) { return faults(u) || u.illegal_inst || t == ECALL; }
static bool control(const RobStoredInst &u, InstType t) { return traps(u, t) || t == CSR || t == MRET || t == SRET || t == SFENCE_VMA || t == FENCE_I || t == EBREAK || u.flush_pipe; }
static bool fence(InstType t) { return t == FENCE || t == FENCE_I || t == SFENCE_VMA; }
static bool complete(const RobStoredInst &u) { return u.cplt_mask == u.expect_mask; }
}
