// P23: dispatch.
// ENTRY: group 48
#include "dis.h"
using namespace dsr;
struct Part { int iq; UopType op; };
static int parts_of(const Kind &k, Part *p) {
  switch (k.type) {
  case LOAD: p[0] = {IQ_LD, UOP_LOAD}; return 1;
  case STORE: p[0] = {IQ_STA, UOP_STA}; p[1] = {IQ_STD, UOP_STD}; return 2;
  case BR: p[0] = {IQ_BR, UOP_BR}; return 1;
  case JAL: case JALR: p[0] = {IQ_INT, UOP_ADD}; p[1] = {IQ_BR, UOP_JUMP}; return 2;
  case AMO: if (k.amo == AmoOp::LR) { p[0] = {IQ_LD, UOP_LOAD}; return 1; }
    if (k.amo == AmoOp::SC) { p[0] = {IQ_STA, UOP_STA}; p[1] = {IQ_STD, UOP_STD}; return 2; }
    p[0] = {IQ_LD, UOP_LOAD}; p[1] = {IQ_STA, UOP_STA}; p[2] = {IQ_STD, UOP_STD}; return 3;
  case MUL: p[0] = {IQ_INT, UOP_MUL}; return 1; case DIV: p[0] = {IQ_INT, UOP_DIV}; return 1; case FP: p[0] = {IQ_INT, UOP_FP}; return 1;
  case CSR: p[0] = {IQ_INT, UOP_CSR}; return 1; case FENCE: p[0] = {IQ_INT, UOP_FENCE}; return 1; case ECALL: p[0] = {IQ_INT, UOP_ECALL}; return 1; case EBREAK: p[0] = {IQ_INT, UOP_EBREAK}; return 1;
  case WFI: p[0] = {IQ_INT, UOP_WFI}; return 1; case SFENCE_VMA: p[0] = {IQ_INT, UOP_SFENCE_VMA}; return 1; case FENCE_I: p[0] = {IQ_INT, UOP_FENCE_I}; return 1; case MRET: p[0] = {IQ_INT, UOP_MRET}; return 1; case SRET: p[0] = {IQ_INT, UOP_SRET}; return 1;
  default: p[0] = {IQ_INT, UOP_ADD}; return 1;
  }
}
// the completion report each part ends with: the reporting port is the one serving its queue, except that a
// store-conditional's address part reports through the load port, where its result returns
static int report(const Kind &k, const Part &p) {
  int port = p.iq == IQ_INT ? IQ_ALU_PORT_BASE : p.iq == IQ_LD ? IQ_LD_PORT_BASE : p.iq == IQ_BR ? IQ_BR_PORT_BASE : p.iq == IQ_STD ? IQ_STD_PORT_BASE : (k.type == AMO && k.amo == AmoOp::SC) ? IQ_LD_PORT_BASE : IQ_STA_PORT_BASE;
  return rob_cplt_mask_from_issue_port(port);
}
static bool wakes(int r) { bool w = false; for (auto &x : prf_awake.wake) w = w || (x.valid && x.preg == (uint32_t)r); for (auto &x : iss_awake.wake) w = w || (x.valid && x.preg == (uint32_t)r); return w; }
static void one(int a, int b, int shape, int link) {
  boot(); const Kind *k[2] = {&kinds[a], &kinds[b]}; bool valid[2] = {bool(shape & 1), bool(shape & 2)};
  // register pattern: the second instruction reads the first one's result through neither, the first or the second operand
  static const int src[3][2] = {{30, 31}, {40, 31}, {30, 40}}; place(dis.inst_r[0], *k[0], "i0", 20, 21, 40); place(dis.inst_r[1], *k[1], "i1", src[link][0], src[link][1], 41);
  for (int i = 0; i < 2; i++) dis.inst_valid[i] = valid[i];
  v_in(dis.busy_table, "busy"); v_in(rob2dis, "rob"); v_in(lsu2dis, "lsu"); rob2dis.enq_idx &= ROB_LINE_NUM - 1; rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = v_any<bool>("mispred"); dec_bcast.clear_mask = v_any<uint16_t>("resolved"); v_in(iss2dis, "room"); for (auto &r : iss2dis.ready_num) r &= 19; lsu2dis.stq_free &= 19; lsu2dis.ldq_free &= 19;
  v_in(ren2dis, "next"); static const int wk[4] = {20, 40, 30, 31}; static const int wi[6] = {21, 31, 30, 40, 50, 20};
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) { prf_awake.wake[i].valid = v_any<bool>(v_name("ld_wake", i)); prf_awake.wake[i].preg = wk[i]; }
  for (int i = 0; i < MAX_WAKEUP_PORTS; i++) { iss_awake.wake[i].valid = v_any<bool>(v_name("wake", i)); iss_awake.wake[i].preg = wi[i % 6]; }
  v_in(dis2iss, "stale_req"); v_in(dis2lsu, "stale_lsu"); v_in(dis2rob, "stale_rob");
  RenDisIO::RenDisInst was[2] = {dis.inst_r[0], dis.inst_r[1]}; bool busy[PRF_NUM]; for (int r = 0; r < PRF_NUM; r++) busy[r] = dis.busy_table[r];
  comb();
  // what may go: in order, with room everywhere, serialised where required
  bool fire[2]; int nld = 0, nst = 0, used[IQ_NUM] = {}; bool ok = !rob_bcast.flush && !dec_bcast.mispred && !rob2dis.stall && rob2dis.ready, went = false, shut = false; int loadno[2] = {}, storeno[2] = {}; Part p[2][3]; int n[2];
  for (int i = 0; i < 2; i++) {
    n[i] = parts_of(*k[i], p[i]); fire[i] = valid[i] && ok && !shut; if (!valid[i]) continue;
    loadno[i] = nld; storeno[i] = nst; bool room = true;
    if (loads(*k[i])) { room = room && nld < lsu2dis.ldq_free && lsu2dis.ldq_alloc_valid[nld] && nld < GLOBAL_IQ_CONFIG[IQ_LD].dispatch_width; nld++; }
    if (stores(*k[i])) { room = room && nst < lsu2dis.stq_free; nst++; }
    for (int q = 0; q < n[i]; q++) room = room && used[p[i][q].iq] < iss2dis.ready_num[p[i][q].iq] && used[p[i][q].iq] < GLOBAL_IQ_CONFIG[p[i][q].iq].dispatch_width;
    bool alone = k[i]->type == AMO || k[i]->type == CSR; bool serial = !alone || (rob2dis.empty && !went);
    bool control = k[i]->type == MRET || k[i]->type == SRET || k[i]->type == ECALL || k[i]->type == EBREAK || k[i]->type == SFENCE_VMA || k[i]->type == FENCE_I || k[i]->type == WFI || k[i]->type == FENCE;   // may also be held back until nothing older is in flight
    fire[i] = fire[i] && room && serial; if (control && !(rob2dis.empty && !went)) fire[i] = fire[i] && dis2rob.dis_fire[i];
    v_is<bool>(dis2rob.dis_fire[i], fire[i], "an instruction is dispatched exactly when it, and all older ones of its group, can be");
    if (!fire[i]) ok = false; else { went = true; for (int q = 0; q < n[i]; q++) used[p[i][q].iq]++; if (k[i]->type == AMO || k[i]->type == WFI) shut = true; }
  }
  for (int i = 0; i < 2; i++) if (!valid[i]) V_REQUIRE(!dis2rob.dis_fire[i], "an empty slot dispatches nothing");
  bool lost = false; for (int i = 0; i < 2; i++) lost = lost || (valid[i] && !fire[i]);
  V_REQUIRE(!(dis2ren.ready && lost), "a group is replaced only when all of it has been dispatched");
  if (!lost && !shut && !(rob_bcast.flush || dec_bcast.mispred)) V_REQUIRE(dis2ren.ready, "a completely dispatched group makes room");
  // identities
  bool src_busy[2][2];
  for (int i = 0; i < 2; i++) {
    if (!valid[i]) continue; const auto &r = dis2rob.uop[i]; const auto &u = was[i];
    for (int s = 0; s < 2; s++) { int g = s ? u.src2_preg : u.src1_preg; bool en = s ? u.src2_en : u.src1_en; bool y = en && busy[g] && !wakes(g); if (i && valid[0] && was[0].dest_en && was[0].dest_preg == (uint32_t)g) y = en; src_busy[i][s] = y; }
    if (!fire[i]) continue;
    v_is<uint32_t>(r.rob_idx, rob2dis.enq_idx * DECODE_WIDTH + i, "reorder-buffer identity of its slot"); v_is<bool>(r.rob_flag, rob2dis.rob_flag, "reorder-buffer identity of its slot");
    int expect = 0; for (int q = 0; q < n[i]; q++) expect |= report(*k[i], p[i][q]); v_is<uint32_t>(r.expect_mask, expect, "the parts expected at completion are the parts sent"); v_is<uint32_t>(r.cplt_mask, 0, "no part counts as completed at dispatch");
    int pos = lsu2dis.stq_tail + storeno[i];
    if (loads(*k[i]) || stores(*k[i])) { v_is<uint32_t>(r.stq_idx, pos % STQ_SIZE, "store-queue position in program order"); v_is<bool>(r.stq_flag, lsu2dis.stq_tail_flag ^ (pos / STQ_SIZE & 1), "store-queue generation in program order"); }
    if (loads(*k[i])) v_is<uint32_t>(r.ldq_idx, lsu2dis.ldq_alloc_idx[loadno[i]], "load-queue entry in program order");
    v_is<uint32_t>(r.br_mask, u.br_mask & ~dec_bcast.clear_mask & 0xffff, "resolved tags are removed at dispatch"); v_is<uint32_t>(r.dest_preg, u.dest_preg, "the record keeps the instruction's attributes"); v_is<uint32_t>(r.dest_areg, u.dest_areg, "the record keeps the instruction's attributes"); v_is<uint32_t>(r.old_dest_preg, u.old_dest_preg, "the record keeps the instruction's attributes"); v_is<uint32_t>(r.type, u.type, "the record keeps the instruction's attributes");
  }
  // queue requests: in order, each part once, with the operands it uses
  for (int iq = 0; iq < IQ_NUM; iq++) {
    int slot = 0;
    for (int i = 0; i < 2; i++) for (int q = 0; q < n[i] && valid[i]; q++) if (p[i][q].iq == iq && fire[i]) {
      const auto &rq = dis2iss.req[iq][slot]; const auto &u = was[i]; const auto &x = rq.uop; V_REQUIRE(rq.valid, "every part is sent to the queue that executes it"); slot++; UopType op = p[i][q].op;
      v_is<uint32_t>(x.op, encode_uop_type(op), "every part carries the operation its instruction needs"); v_is<uint32_t>(x.rob_idx, rob2dis.enq_idx * DECODE_WIDTH + i, "every part carries its instruction's identity"); v_is<bool>(x.rob_flag, rob2dis.rob_flag, "every part carries its instruction's identity");
      bool link_part = (k[i]->type == JAL || k[i]->type == JALR) && op == UOP_ADD, amo_data = k[i]->type == AMO && op == UOP_STD && k[i]->amo != AmoOp::SC, sc = k[i]->type == AMO && k[i]->amo == AmoOp::SC;
      bool e1 = link_part ? false : op == UOP_STD && !amo_data ? false : k[i]->type == JALR ? true : (bool)u.src1_en; bool e2 = link_part ? false : op == UOP_STA || (op == UOP_LOAD && k[i]->type == AMO) ? false : k[i]->type == STORE ? true : (bool)u.src2_en;
      bool de = op == UOP_JUMP || amo_data || (sc && op == UOP_STD) || (op == UOP_STA && k[i]->type == AMO && !sc) ? false : sc && op == UOP_STA ? true : (bool)u.dest_en;
      v_is<bool>(x.src1_en, e1, "a part reads exactly the operands it uses"); v_is<bool>(x.src2_en, e2, "a part reads exactly the operands it uses"); v_is<bool>(x.dest_en, de, "a part writes a register exactly when it produces the result");
      if (e1) { v_is<uint32_t>(x.src1_preg, amo_data ? u.dest_preg : u.src1_preg, "a part names its operand"); if (amo_data) { if (k[i]->amo != AmoOp::SWAP) V_REQUIRE(x.src1_busy, "an atomic's store data waits for the loaded value"); } else if (u.src1_en) v_is<bool>(x.src1_busy, src_busy[i][0], "an operand is ready exactly when its value is available"); }
      if (e2) { v_is<uint32_t>(x.src2_preg, u.src2_preg, "a part names its operand"); if (u.src2_en) v_is<bool>(x.src2_busy, src_busy[i][1], "an operand is ready exactly when its value is available"); }
      v_is<uint32_t>(x.dest_preg, u.dest_preg, "a part names its destination"); v_is<uint32_t>(x.imm, link_part ? 4u : (uint32_t)u.imm, "a part carries its immediate"); v_is<uint32_t>(x.func3, u.func3, "a part carries its function code"); v_is<uint32_t>(x.func7, u.func7, "a part carries its function code");
      v_is<uint32_t>(x.br_id, u.br_id, "a part carries its branch tag"); v_is<uint32_t>(x.br_mask, u.br_mask & ~dec_bcast.clear_mask & 0xffff, "resolved tags are removed at dispatch"); v_is<uint32_t>(x.csr_idx, u.csr_idx, "a part carries its register number"); v_is<uint32_t>(x.ftq_idx, u.ftq_idx, "a part carries its fetch record"); v_is<uint32_t>(x.ftq_offset, u.ftq_offset, "a part carries its fetch record"); v_is<bool>(x.src1_is_pc, u.src1_is_pc, "a part reads exactly the operands it uses"); v_is<bool>(x.src2_is_imm, u.src2_is_imm, "a part reads exactly the operands it uses");
      v_is<bool>(x.is_atomic, u.is_atomic, "a part knows whether it is atomic");
      if (loads(*k[i]) || stores(*k[i])) { v_is<uint32_t>(x.stq_idx, dis2rob.uop[i].stq_idx, "every part carries its instruction's identity"); v_is<bool>(x.stq_flag, dis2rob.uop[i].stq_flag, "every part carries its instruction's identity"); } if (loads(*k[i])) v_is<uint32_t>(x.ldq_idx, dis2rob.uop[i].ldq_idx, "every part carries its instruction's identity");
    }
    for (int s = 0; s < MAX_IQ_DISPATCH_WIDTH; s++) if (s >= slot) V_REQUIRE(!dis2iss.req[iq][s].valid, "nothing is sent for an instruction that is not dispatched");
  }
  // memory queues
  for (int w = 0; w < 2; w++) {
    int ld = -1, st = -1; for (int i = 0; i < 2; i++) if (valid[i]) { if (loads(*k[i]) && loadno[i] == w) ld = i; if (stores(*k[i]) && storeno[i] == w) st = i; }
    bool wantl = ld >= 0 && fire[ld], wants = st >= 0 && fire[st]; v_is<bool>(dis2lsu.ldq_alloc_req[w], wantl, "load-queue space is taken exactly by dispatched loads"); v_is<bool>(dis2lsu.alloc_req[w], wants, "store-queue space is taken exactly by dispatched stores");
    if (wantl) { const auto &r = dis2rob.uop[ld]; v_is<uint32_t>(dis2lsu.ldq_idx[w], r.ldq_idx, "the load queue gets the load's identity"); v_is<uint32_t>(dis2lsu.ldq_rob_idx[w], r.rob_idx, "the load queue gets the load's identity"); v_is<bool>(dis2lsu.ldq_rob_flag[w], r.rob_flag, "the load queue gets the load's identity"); v_is<uint32_t>(dis2lsu.ldq_br_mask[w], r.br_mask, "the load queue gets the load's tags"); }
    if (wants) { const auto &r = dis2rob.uop[st]; v_is<uint32_t>(dis2lsu.rob_idx[w], r.rob_idx, "the store queue gets the store's identity"); v_is<bool>(dis2lsu.rob_flag[w], r.rob_flag, "the store queue gets the store's identity"); v_is<bool>(dis2lsu.stq_flag[w], r.stq_flag, "the store queue gets the store's identity"); v_is<uint32_t>(dis2lsu.func3[w], r.func3, "the store queue gets the store's size"); v_is<uint32_t>(dis2lsu.br_mask[w], r.br_mask, "the store queue gets the store's tags"); }
  }
  bool squash = rob_bcast.flush || dec_bcast.mispred;
  dis.seq();
  for (int r = 0; r < PRF_NUM; r++) { bool y = busy[r] && !wakes(r); for (int i = 0; i < 2; i++) if (fire[i] && was[i].dest_en && r == 40 + i) y = true; v_is<bool>(dis.busy_table[r], y, "a register is pending from dispatch of its producer to its wake-up"); }
  for (int i = 0; i < 2; i++) if (!squash) {
    if (dis2ren.ready) { v_is<bool>(dis.inst_valid[i], ren2dis.valid[i], "a new group is taken as offered"); if (i == 0 || true) v_is<uint32_t>(dis.inst_r[i].dest_preg, ren2dis.uop[i].dest_preg, "a new group is taken as offered"); }
    else { v_is<bool>(dis.inst_valid[i], valid[i] && !fire[i], "an instruction not yet dispatched stays, a dispatched one leaves"); if (valid[i] && !fire[i]) { v_is<uint32_t>(dis.inst_r[i].dest_preg, was[i].dest_preg, "a waiting instruction keeps its attributes"); v_is<uint32_t>(dis.inst_r[i].imm, was[i].imm, "a waiting instruction keeps its attributes"); v_is<uint32_t>(dis.inst_r[i].type, was[i].type, "a waiting instruction keeps its attributes"); v_is<uint32_t>(dis.inst_r[i].br_mask, was[i].br_mask & ~dec_bcast.clear_mask & 0xffff, "resolved tags are removed from a waiting instruction"); } }
  } else V_REQUIRE(!dis.inst_valid[i], "a squash empties the stage");
}
extern "C" void group(int part) { int a = part >> 1; for (int b = 0; b < KINDS; b++) for (int shape = 1; shape < 4; shape++) { if (!(shape & 2) && b) continue; if ((part & 1) != (shape == 3)) continue; for (int link = 0; link < (shape == 3 ? 3 : 1); link++) { if (link && b % 3 != a % 3) continue; one(a, b, shape, link); } } }
