// The dispatch stage with its ports.
#pragma once
#include "vh.h"
#include "back-end/Dispatch.cpp"
long long sim_time;
namespace dsr {
static RenDisIO ren2dis; static RobDisIO rob2dis; static IssDisIO iss2dis; static LsuDisIO lsu2dis; static PrfAwakeIO prf_awake; static IssAwakeIO iss_awake; static RobBroadcastIO rob_bcast; static DecBroadcastIO dec_bcast;
static DisRenIO dis2ren; static DisRobIO dis2rob; static DisIssIO dis2iss; static DisLsuIO dis2lsu; static SimContext ctx; static Dispatch dis(&ctx);
static void boot() { dis.in = {&ren2dis, &rob2dis, &iss2dis, &lsu2dis, &prf_awake, &iss_awake, &rob_bcast, &dec_bcast}; dis.out = {&dis2ren, &dis2rob, &dis2iss, &dis2lsu}; dis.init(); }
// kinds of instruction; atomics by operation
struct Kind { InstType type; int amo; };
static const Kind kinds[] = {{NOP, -1}, {JAL, -1}, {JALR, -1}, {ADD, -1}, {BR, -1}, {LOAD, -1}, {STORE, -1}, {CSR, -1}, {FENCE, -1}, {ECALL, -1}, {EBREAK, -1}, {WFI, -1}, {SFENCE_VMA, -1}, {FENCE_I, -1}, {MRET, -1}, {SRET, -1}, {MUL, -1}, {DIV, -1}, {FP, -1}, {AMO, AmoOp::LR}, {AMO, AmoOp::SC}, {AMO, AmoOp::SWAP}, {AMO, AmoOp::ADD}, {AMO, 0b11100}};
enum { KINDS = sizeof kinds / sizeof kinds[0] };
static bool loads(const Kind &k) { return k.type == LOAD || (k.type == AMO && k.amo != AmoOp::SC); }
static bool stores(const Kind &k) { return k.type == STORE || (k.type == AMO && k.amo != AmoOp::LR); }
static void place(RenDisIO::RenDisInst &u, const Kind &k, const char *name, int src1, int src2, int dest) {
  v_in(u, name); u.type = encode_inst_type(k.type); if (k.type == AMO) { u.func7 = (k.amo << 2) | (u.func7 & 3); u.is_atomic = true; u.src1_en = true; }
  u.src1_preg = src1; u.src2_preg = src2; u.dest_preg = dest; if (!u.dest_en) u.dest_areg = 0; if (u.dest_en && u.dest_areg == 0) u.dest_areg = 1;
}
static void comb() { dis.comb_begin(); dis.comb_alloc(); dis.comb_wake(); dis.comb_dispatch(); dis.comb_fire(); dis.comb_pipeline(); }
}
