// P22: retirement.
// ENTRY: retire 20
// ENTRY: broadcast 20
// ENTRY: window_next 24
// ENTRY: finish 10
// ENTRY: parts 12
// ENTRY: squash 20
// ENTRY: announce 6
// ENTRY: through 6
// FLAGS: -I$VERIF/harness/stubcpu
#include "rob.h"
using namespace rb;
static const InstType types[20] = {NOP, JAL, JALR, ADD, BR, LOAD, STORE, CSR, FENCE, ECALL, EBREAK, WFI, SFENCE_VMA, FENCE_I, MRET, SRET, MUL, DIV, AMO, FP};
static void env() { dec_bcast.mispred = v_any<bool>("mispred"); dec_bcast.redirect_rob_idx = 0; csr2rob.interrupt_req = v_any<bool>("irq"); lsu2rob.committed_store_pending = v_any<bool>("stores_pending"); front_stall = v_any<bool>("front_stall"); v_in(ftq_resp, "pc"); ftq_resp.resp[0].valid = true; v_in(rob_commit, "stale"); v_in(rob_bcast, "stale_b"); v_in(rob2csr, "stale_c"); v_in(rob2dis, "stale_d"); }
// Which instructions leave in one cycle, for every pair of kinds at the head.
extern "C" void retire(int part) {
  for (int k = 0; k < 20; k++) for (int have = 0; have < 4; have++) {
    if (have != 3 && k) continue;
    boot(); int h = part % 2 ? ROB_LINE_NUM - 1 : 5; window(h, 3); quiet(); env(); InstType t[2] = {types[part], types[(part + k) % 20]};
    for (int b = 0; b < 2; b++) { fill(b, h, b ? "second" : "first", t[b]); rob.entry[b][h].valid = have >> b & 1; fill(b, (h + 1) % ROB_LINE_NUM, b ? "n1" : "n0", ADD); }
    const RobStoredInst u[2] = {rob.entry[0][h].uop, rob.entry[1][h].uop}; bool v[2] = {(have & 1) != 0, (have & 2) != 0};
    rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit();
    bool irq = rob_bcast.interrupt; bool r[2] = {rob_commit.commit_entry[0].valid, rob_commit.commit_entry[1].valid}, out[2] = {r[0] && !irq, r[1] && !irq};
    int o = v[0] ? 0 : 1; bool head = v[o];
    for (int b = 0; b < 2; b++) {
      V_REQUIRE(!r[b] || v[b], "only instructions in the buffer retire"); V_REQUIRE(!r[b] || !dec_bcast.mispred, "nothing retires in a misprediction cycle");
      V_REQUIRE(!out[b] || complete(u[b]), "an instruction retires only when all its parts have completed");
      if (v[0] && b) V_REQUIRE(!r[1] || r[0], "instructions retire in order");
      V_REQUIRE(!out[b] || !control(u[b], t[b]) || !r[1 - b], "an instruction that traps or changes machine control retires alone");
      V_REQUIRE(!out[b] || t[b] != WFI || !r[1 - b], "an instruction that traps or changes machine control retires alone");
      V_REQUIRE(!out[b] || !fence(t[b]) || !lsu2rob.committed_store_pending, "a fence waits for older stores");
    }
    V_REQUIRE(!irq || (csr2rob.interrupt_req && !dec_bcast.mispred && head), "an interrupt is taken only at a retirement point"); v_is<bool>(rob2csr.interrupt_resp, irq, "an interrupt is reported to the trap unit exactly when it is taken");
    V_REQUIRE(!(csr2rob.interrupt_req && !dec_bcast.mispred && head) || irq, "a pending interrupt is taken at the next retirement point");
    V_REQUIRE(!irq || !(r[0] && r[1]), "an interrupt is taken before exactly one instruction");
    bool ctl = (out[0] && control(u[0], t[0])) || (out[1] && control(u[1], t[1])); v_is<bool>(rob_bcast.flush, ctl || irq, "everything younger is squashed exactly after a trap, control change or interrupt");
    if (head) { bool gate = fence(t[o]) && lsu2rob.committed_store_pending; V_REQUIRE(dec_bcast.mispred || irq || front_stall || gate || !complete(u[o]) || r[o], "a finished oldest instruction retires"); }
    for (int b = 0; b < 2; b++) v_is<bool>(rob.entry_1[b][h].valid, v[b] && !r[b], "an instruction leaves the buffer exactly when it retires");
    bool drained = !rob.entry_1[0][h].valid && !rob.entry_1[1][h].valid; if (r[0] || r[1]) v_is<int>(rob.deq_ptr_1, drained ? (h + 1) % ROB_LINE_NUM : h, "the oldest position moves on when its instructions are gone");
    if (!r[0] && !r[1] && head) v_is<int>(rob.deq_ptr_1, h, "the oldest position moves on when its instructions are gone");
    v_is<bool>(rob.deq_flag_1, h == ROB_LINE_NUM - 1 && rob.deq_ptr_1 == 0, "the generation changes exactly at the wrap");
    for (int b = 0; b < 2; b++) { const auto &c = rob_commit.commit_entry[b].uop; if (r[b]) { v_is<uint32_t>(c.dest_areg, u[b].dest_areg, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.dest_preg, u[b].dest_preg, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.old_dest_preg, u[b].old_dest_preg, "a retiring instruction is reported as it is"); v_is<bool>(c.dest_en, u[b].dest_en, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.stq_idx, u[b].stq_idx, "a retiring instruction is reported as it is"); v_is<bool>(c.stq_flag, u[b].stq_flag, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.type, u[b].type, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.rob_idx, u[b].rob_idx, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.ftq_idx, u[b].ftq_idx, "a retiring instruction is reported as it is"); v_is<uint32_t>(c.diag_val, u[b].diag_val, "a retiring instruction is reported as it is"); v_is<bool>(c.br_taken, u[b].br_taken, "a retiring instruction is reported as it is"); v_is<bool>(c.mispred, u[b].mispred, "a retiring instruction is reported as it is"); } }
  }
}
// What a control-changing instruction announces.
extern "C" void broadcast(int part) {
  for (int b = 0; b < 2; b++) {
    boot(); window(7, 2); quiet(); env(); InstType t = types[part]; fill(b, 7, "insn", t); fill(1 - b, 7, "other", ADD); if (b) rob.entry[0][7].valid = false; else rob.entry[1][7].valid = v_any<bool>("other_valid");
    const RobStoredInst u = rob.entry[b][7].uop; uint32_t pc = ftq_resp.resp[0].pc; ExitReason before = ctx.exit_reason;
    rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); v_is<bool>(ftq_req.req[0].valid, true, "the program counter asked for is the oldest instruction's"); v_is<uint32_t>(ftq_req.req[0].ftq_idx, u.ftq_idx, "the program counter asked for is the oldest instruction's"); v_is<uint32_t>(ftq_req.req[0].ftq_offset, u.ftq_offset, "the program counter asked for is the oldest instruction's");
    rob.comb_commit(); bool irq = rob_bcast.interrupt, out = rob_commit.commit_entry[b].valid && !irq;
    bool pst = out && t != ECALL && t != MRET && t != SRET && u.page_fault_store, pld = out && t != ECALL && t != MRET && t != SRET && !u.page_fault_store && u.page_fault_load, pin = out && t != ECALL && t != MRET && t != SRET && !u.page_fault_store && !u.page_fault_load && u.page_fault_inst, ill = out && t != ECALL && t != MRET && t != SRET && !faults(u) && u.illegal_inst;
    bool plain = out && !faults(u) && !u.illegal_inst;
    v_is<bool>(rob_bcast.page_fault_store, pst, "a store fault is announced exactly when it retires"); v_is<bool>(rob_bcast.page_fault_load, pld, "a load fault is announced exactly when it retires"); v_is<bool>(rob_bcast.page_fault_inst, pin, "a fetch fault is announced exactly when it retires"); v_is<bool>(rob_bcast.illegal_inst, ill, "an illegal instruction is announced exactly when it retires");
    if (pst || pld || ill) v_is<uint32_t>(rob_bcast.trap_val, u.diag_val, "the trap value is the faulting address or instruction"); if (pin) v_is<uint32_t>(rob_bcast.trap_val, pc, "the trap value of a fetch fault is its address");
    v_is<bool>(rob_bcast.ecall, out && t == ECALL, "an environment call is announced exactly when it retires"); v_is<bool>(rob_bcast.mret, out && t == MRET, "a trap return is announced exactly when it retires"); v_is<bool>(rob_bcast.sret, out && t == SRET, "a trap return is announced exactly when it retires");
    if (t == ECALL || t == MRET || t == SRET) continue;   // carry no fault
    v_is<bool>(rob_bcast.exception, (out && traps(u, t)) || irq, "a trap is signalled exactly for a trapping instruction or an interrupt"); if (rob_bcast.flush) v_is<uint32_t>(rob_bcast.pc, pc, "the program counter announced is the instruction's own");
    v_is<bool>(rob2csr.commit, plain && t == CSR, "a control-register write takes effect exactly when its instruction retires without trapping"); v_is<bool>(rob_bcast.fence, plain && t == SFENCE_VMA, "an address-translation fence takes effect exactly when it retires without trapping"); v_is<bool>(rob_bcast.fence_i, plain && t == FENCE_I, "an instruction fence takes effect exactly when it retires without trapping");
    v_is<int>((int)ctx.exit_reason, plain && t == EBREAK ? (int)ExitReason::EBREAK : plain && t == WFI && !u.flush_pipe ? (int)ExitReason::WFI : plain && t == WFI ? (int)ExitReason::WFI : (int)before, "the simulation ends exactly on a retired ebreak or wfi");
  }
}
// Enqueue and pointer arithmetic for every fill state.
extern "C" void window_next(int part) {
  static const int heads[4] = {0, 1, ROB_LINE_NUM / 2, ROB_LINE_NUM - 1}, fills[6] = {0, 1, 2, ROB_LINE_NUM - 2, ROB_LINE_NUM - 1, ROB_LINE_NUM}; int h = heads[part % 4], n = fills[part / 4], tail = (h + n) % ROB_LINE_NUM;
  for (int pat = 1; pat < 4; pat++) {
    boot(); window(h, n); quiet(); uint32_t was[ROB_LINE_NUM][2]; for (int k = 0; k < n; k++) for (int b = 0; b < 2; b++) { fill(b, (h + k) % ROB_LINE_NUM, v_name("old", k * 2 + b), ADD); auto &u = rob.entry[b][(h + k) % ROB_LINE_NUM].uop; u.page_fault_inst = u.page_fault_load = u.page_fault_store = u.illegal_inst = u.flush_pipe = false; u.expect_mask = 1; u.cplt_mask = 0; was[k][b] = u.dest_preg; }
    for (int b = 0; b < 2; b++) { v_in(dis2rob.uop[b], v_name("new", b)); dis2rob.dis_fire[b] = pat >> b & 1; }
    rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit();
    v_is<bool>(rob2dis.empty, n == 0, "the buffer knows when it is empty"); v_is<bool>(rob2dis.ready, n < ROB_LINE_NUM, "the buffer accepts exactly when it has room"); v_is<int>(rob2dis.enq_idx, tail, "the announced identity is where the instruction goes"); v_is<bool>(rob2dis.rob_flag, rob.enq_flag, "the announced identity is where the instruction goes");
    if (n == ROB_LINE_NUM) for (auto &v : dis2rob.dis_fire) v = false;
    rob.comb_complete(); rob.comb_branch(); rob.comb_fire(); rob.comb_flush(); rob.seq();
    bool took = n < ROB_LINE_NUM; v_is<int>(rob.enq_ptr, took ? (tail + 1) % ROB_LINE_NUM : tail, "the newest position moves on with each accepted group"); v_is<bool>(rob.is_full(), n + took == ROB_LINE_NUM, "the buffer knows when it is full"); v_is<bool>(rob.is_empty(), n + took == 0, "the buffer knows when it is empty"); v_is<int>(rob.deq_ptr, h, "accepting leaves the oldest position alone");
    if (took) for (int b = 0; b < 2; b++) { bool in = pat >> b & 1; v_is<bool>(rob.entry[b][tail].valid, in, "exactly the accepted instructions are recorded"); if (in) { const auto &e = rob.entry[b][tail].uop; const auto &s = dis2rob.uop[b]; v_is<uint32_t>(e.cplt_mask, 0, "a new instruction has completed nothing"); v_is<uint32_t>(e.expect_mask, s.expect_mask, "a new instruction expects its parts"); v_is<uint32_t>(e.type, s.type, "a new instruction is recorded as it is"); v_is<uint32_t>(e.dest_preg, s.dest_preg, "a new instruction is recorded as it is"); v_is<uint32_t>(e.old_dest_preg, s.old_dest_preg, "a new instruction is recorded as it is"); v_is<uint32_t>(e.dest_areg, s.dest_areg, "a new instruction is recorded as it is"); v_is<bool>(e.dest_en, s.dest_en, "a new instruction is recorded as it is"); v_is<bool>(e.page_fault_inst, s.page_fault_inst, "a new instruction is recorded as it is"); v_is<bool>(e.illegal_inst, s.illegal_inst, "a new instruction is recorded as it is"); v_is<uint32_t>(e.diag_val, s.diag_val, "a new instruction is recorded as it is"); V_REQUIRE(!e.page_fault_load && !e.page_fault_store, "a new instruction has not faulted in memory"); } }
    for (int k = 0; k < n; k++) for (int b = 0; b < 2; b++) { int l = (h + k) % ROB_LINE_NUM; V_REQUIRE(rob.entry[b][l].valid, "accepting leaves older instructions alone"); v_is<uint32_t>(rob.entry[b][l].uop.dest_preg, was[k][b], "accepting leaves older instructions alone"); }
  }
}
// One completion arriving at each port.
extern "C" void finish(int part) {
  for (int line = 0; line < ROB_LINE_NUM; line += 31) for (int bank = 0; bank < 2; bank++) {
    boot(); window(0, ROB_LINE_NUM); quiet(); for (int l = 0; l < ROB_LINE_NUM; l += l ? 30 : 1) for (int b = 0; b < 2; b++) fill(b, l, v_name("e", l * 2 + b), LOAD);
    auto &x = exu2rob.entry[part]; v_in(x.uop, "done"); x.valid = true; x.uop.rob_idx = make_rob_idx(line, bank); bool ld = part >= IQ_LD_PORT_BASE && part < IQ_LD_PORT_BASE + LSU_LOAD_WB_WIDTH, sta = part >= IQ_STA_PORT_BASE && part < IQ_STA_PORT_BASE + LSU_STA_COUNT, br = part >= IQ_BR_PORT_BASE && part < IQ_BR_PORT_BASE + BRU_NUM, std_ = part >= IQ_STD_PORT_BASE && part < IQ_STD_PORT_BASE + 2; x.uop.op = encode_uop_type(ld ? UOP_LOAD : sta ? UOP_STA : br ? UOP_BR : std_ ? UOP_STD : UOP_ADD);
    auto &e = rob.entry[bank][line].uop; int bit = sta || br ? 2 : std_ ? 4 : 1; e.expect_mask = 7; e.cplt_mask = e.cplt_mask & 7 & ~bit; e.page_fault_inst = e.page_fault_load = e.page_fault_store = false; const RobStoredInst was = e; const auto &w = x.uop;
    rob.comb_begin(); rob.comb_complete();
    const auto &n = rob.entry_1[bank][line].uop; v_is<uint32_t>(n.cplt_mask, was.cplt_mask | bit, "a completion completes its own part"); v_is<bool>(n.flush_pipe, was.flush_pipe || w.flush_pipe, "a request to restart is remembered");
    bool f = w.page_fault_inst || w.page_fault_load || w.page_fault_store;
    if (ld || sta) { v_is<bool>(n.page_fault_store, w.page_fault_store, "a memory fault is recorded"); v_is<bool>(n.page_fault_load || n.page_fault_store, w.page_fault_load || w.page_fault_store, "a memory fault is recorded"); v_is<bool>(n.page_fault_inst, w.page_fault_inst, "a memory fault is recorded"); if (f) v_is<uint32_t>(n.diag_val, w.result, "the faulting address is recorded"); }
    if (br) { v_is<uint32_t>(n.diag_val, w.diag_val, "a branch's target is recorded"); v_is<bool>(n.mispred, w.mispred, "a branch's outcome is recorded"); v_is<bool>(n.br_taken, w.br_taken, "a branch's outcome is recorded"); } else { v_is<bool>(n.mispred, was.mispred, "only a branch changes the recorded outcome"); }
    if (!ld && !sta && !br) v_is<uint32_t>(n.diag_val, was.diag_val, "a plain completion changes nothing else"); v_is<uint32_t>(n.dest_preg, was.dest_preg, "a plain completion changes nothing else"); v_is<uint32_t>(n.type, was.type, "a plain completion changes nothing else"); v_is<bool>(n.illegal_inst, was.illegal_inst, "a plain completion changes nothing else");
    for (int l = 0; l < ROB_LINE_NUM; l += l ? 30 : 1) for (int b = 0; b < 2; b++) if (l != line || b != bank) { v_is<uint32_t>(rob.entry_1[b][l].uop.cplt_mask, rob.entry[b][l].uop.cplt_mask, "a completion concerns its own instruction only"); v_is<uint32_t>(rob.entry_1[b][l].uop.diag_val, rob.entry[b][l].uop.diag_val, "a completion concerns its own instruction only"); }
  }
}
// The parts of one atomic or store finishing in every order: a fault and its address survive.
extern "C" void parts(int part) {
  static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; bool together = part >= 6; const int *o = ord[part % 6];
  for (int kind = 0; kind < 4; kind++) {   // who faults: nobody, the store half, both halves, the load half
    boot(); window(0, 2); quiet(); fill(0, 0, "amo", AMO); auto &e = rob.entry[0][0].uop; e.expect_mask = 7; e.cplt_mask = 0; e.page_fault_inst = e.page_fault_load = e.page_fault_store = e.illegal_inst = e.flush_pipe = false; rob.entry[1][0].valid = false; ftq_resp.resp[0].valid = true;
    uint32_t va = v_any<uint32_t>("address"); bool lf = kind >= 2, sf = kind == 1 || kind == 2;
    for (int s = 0; s < 3; s++) {
      for (auto &x : exu2rob.entry) x.valid = false;
      for (int q = 0; q < 3; q++) { if (together ? s != (q == o[2] ? 1 : 0) : o[s] != q) continue; auto &x = exu2rob.entry[q == 0 ? IQ_LD_PORT_BASE : q == 1 ? IQ_STA_PORT_BASE : IQ_STD_PORT_BASE]; v_in(x.uop, v_name("part", q)); x.valid = true; x.uop.rob_idx = 0; x.uop.op = encode_uop_type(q == 0 ? UOP_LOAD : q == 1 ? UOP_STA : UOP_STD); x.uop.page_fault_inst = false; x.uop.flush_pipe = false; x.uop.page_fault_load = q == 0 && lf; x.uop.page_fault_store = q == 1 && sf; if ((q == 0 && lf) || (q == 1 && sf)) x.uop.result = va; }
      comb(); V_REQUIRE(!rob_commit.commit_entry[0].valid, "an instruction retires only when all its parts have completed"); rob.seq();
      if (together && s == 1) break;
    }
    for (auto &x : exu2rob.entry) x.valid = false;
    rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit(); V_REQUIRE(rob_commit.commit_entry[0].valid, "a finished oldest instruction retires");
    v_is<bool>(rob_bcast.page_fault_store, sf, "a store fault of an atomic is announced"); v_is<bool>(rob_bcast.page_fault_load, lf && !sf, "a load fault is announced"); if (kind) v_is<uint32_t>(rob_bcast.trap_val, va, "the trap value is the address that faulted, whatever finishes later");
  }
}
// A misprediction removes exactly what follows the branch.
extern "C" void squash(int part) {
  static const int heads[4] = {0, 3, ROB_LINE_NUM - 2, ROB_LINE_NUM - 1}, fills[5] = {1, 2, 4, ROB_LINE_NUM - 1, ROB_LINE_NUM}; int h = heads[part % 4], n = fills[part / 4];
  for (int at = 0; at < n; at += at < 3 ? 1 : at < n - 4 ? n - 4 - at : 1) for (int bank = 0; bank < 2; bank++) {
    boot(); window(h, n); quiet(); bool v0[ROB_LINE_NUM][2]; for (int k = 0; k < n; k++) for (int b = 0; b < 2; b++) { int l = (h + k) % ROB_LINE_NUM; auto &e = rob.entry[b][l]; e.uop = {}; e.uop.dest_preg = k; e.uop.expect_mask = 1; e.valid = (k == at && b == bank) ? true : v_any<bool>(v_name("v", k * 2 + b)); v0[k][b] = e.valid; }
    dec_bcast.mispred = true; dec_bcast.redirect_rob_idx = make_rob_idx((h + at) % ROB_LINE_NUM, bank);
    comb(); rob.seq();
    for (int k = 0; k < n; k++) for (int b = 0; b < 2; b++) { bool younger = k > at || (k == at && b > bank); v_is<bool>(rob.entry[b][(h + k) % ROB_LINE_NUM].valid, v0[k][b] && !younger, "a misprediction removes exactly the instructions after the branch"); }
    v_is<int>(rob.enq_ptr, (h + at + 1) % ROB_LINE_NUM, "after a misprediction the next instruction follows the branch"); v_is<int>(rob.deq_ptr, h, "a misprediction leaves the oldest position alone"); V_REQUIRE(!rob.is_empty(), "the branch itself stays"); v_is<bool>(rob.is_full(), at + 1 == ROB_LINE_NUM, "the buffer knows when it is full"); v_is<bool>(rob.enq_flag, h + at + 1 >= ROB_LINE_NUM, "the generation changes exactly at the wrap");
    V_REQUIRE(rob.entry[bank][(h + at) % ROB_LINE_NUM].uop.ftq_is_last, "the branch becomes the last instruction of its fetch group");
  }
}
// Head announcements, dispatch stall and squash of everything.
extern "C" void announce(int part) {
  static const int heads[3] = {0, 9, ROB_LINE_NUM - 1}; int h = heads[part % 3]; boot(); window(h, part < 3 ? 2 : 1); quiet(); env(); bool any[2];
  for (int b = 0; b < 2; b++) { fill(b, h, v_name("h", b), ADD); rob.entry[b][h].valid = any[b] = v_any<bool>(v_name("hv", b)); rob.entry[b][h].uop.type = v_any<uint8_t>(v_name("ht", b)) & 15; }
  bool c[2] = {complete(rob.entry[0][h].uop), complete(rob.entry[1][h].uop)};
  rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit();
  v_is<bool>(rob_bcast.head_valid, any[0] || any[1], "the oldest instruction is announced"); if (any[0] || any[1]) v_is<uint32_t>(rob_bcast.head_rob_idx, h * 2 + !any[0], "the oldest instruction is announced");
  bool i0 = any[0] && !c[0], i1 = any[1] && !c[1]; v_is<bool>(rob_bcast.head_incomplete_valid, i0 || i1, "the oldest unfinished instruction is announced"); if (i0 || i1) v_is<uint32_t>(rob_bcast.head_incomplete_rob_idx, h * 2 + !i0, "the oldest unfinished instruction is announced");
  for (int b = 0; b < 2; b++) V_REQUIRE(!(any[b] && control(rob.entry[b][h].uop, (InstType)(int)rob.entry[b][h].uop.type)) || rob2dis.stall, "nothing is dispatched behind an instruction about to change machine control");
  rob.comb_complete(); rob.comb_branch(); rob.comb_fire(); rob.comb_flush();
  if (rob_bcast.flush) { for (int l = 0; l < ROB_LINE_NUM; l++) for (int b = 0; b < 2; b++) V_REQUIRE(!rob.entry_1[b][l].valid, "a squash empties the buffer"); V_REQUIRE(rob.enq_ptr_1 == rob.deq_ptr_1 && rob.enq_flag_1 == rob.deq_flag_1, "a squash empties the buffer"); }
}
// Two groups in, completed by their announced identities in a chosen order, out in program order.
extern "C" void through(int part) {
  static const int starts[3] = {0, 12, ROB_LINE_NUM - 1}; int h = starts[part % 3]; bool rev = part / 3; boot(); window(h, 0); quiet(); int id[4]; uint32_t tag[4];
  for (int g = 0; g < 2; g++) { for (int b = 0; b < 2; b++) { auto &d = dis2rob.uop[b]; v_in(d, v_name("g", g * 2 + b)); d.type = encode_inst_type(ADD); d.page_fault_inst = d.illegal_inst = d.flush_pipe = false; d.expect_mask = 1; dis2rob.dis_fire[b] = true; tag[g * 2 + b] = d.dest_preg; } rob.comb_begin(); rob.comb_ready(); rob.comb_ftq_pc_req(); rob.comb_commit(); for (int b = 0; b < 2; b++) id[g * 2 + b] = make_rob_idx(rob2dis.enq_idx, b); rob.comb_complete(); rob.comb_branch(); rob.comb_fire(); rob.comb_flush(); rob.seq(); }
  for (auto &f : dis2rob.dis_fire) f = false; int seen = 0, done = 0;
  for (int c = 0; c < 12; c++) {
    for (auto &x : exu2rob.entry) x.valid = false; if (c < 4) { auto &x = exu2rob.entry[0]; v_in(x.uop, v_name("w", c)); x.valid = true; x.uop.flush_pipe = false; x.uop.op = encode_uop_type(UOP_ADD); x.uop.rob_idx = id[rev ? 3 - c : c]; }
    comb(); for (int b = 0; b < 2; b++) if (rob_commit.commit_entry[b].valid) { V_REQUIRE(seen < 4, "each instruction retires once"); V_REQUIRE(rev ? done >= 4 - seen || c >= 4 : done > seen, "an instruction retires only when all its parts have completed"); v_is<uint32_t>(rob_commit.commit_entry[b].uop.dest_preg, tag[seen < 4 ? seen : 3], "instructions retire in order"); seen++; }
    if (c < 4) done++; rob.seq();
  }
  V_REQUIRE(seen == 4, "every finished instruction retires"); V_REQUIRE(rob.is_empty(), "the buffer knows when it is empty");
}
