// P17: squashes.
// ENTRY: life 60
// ENTRY: deliver 2
// ENTRY: queues 6
// ENTRY: pair_br 4
// ENTRY: behind 24
#include "back.h"
long long sim_time = 100;
using namespace bk;
struct Op { int iq; UopType op; int func7, func3, dest, last; };
static const Op ops[10] = {{IQ_INT, UOP_ADD, 0, 0, 10, 3}, {IQ_INT, UOP_MUL, 1, 0, 10, 5}, {IQ_INT, UOP_DIV, 1, 4, 10, 21}, {IQ_INT, UOP_FP, 0, 0, 10, 8}, {IQ_INT, UOP_FP, 0x0c, 0, 10, 13}, {IQ_INT, UOP_CSR, 0, 1, 10, 3}, {IQ_LD, UOP_LOAD, 0, 2, 10, 3}, {IQ_STA, UOP_STA, 0, 2, -1, 3}, {IQ_STD, UOP_STD, 0, 2, -1, 3}, {IQ_BR, UOP_BR, 0, 0, -1, 3}};
enum { TAG = 3, OTHER = 4 };
// One instruction from its queue to completion, with a squash of each kind in every cycle of its life.
extern "C" void life(int part) {
  const Op &o = ops[part % 10]; int kind = part / 10;   // flush, own tag, other tag, own tag resolved then reused, both, own tag resolved and mispredicted
  static const bool removes[6] = {true, true, false, false, true, true};
  for (int when = 1; when <= o.last; when++) {
    wire_up(); sim_time = 100; for (int i = 1; i < PRF_NUM; i++) prf.reg_file[i] = v_any<uint32_t>(v_name("r", i));
    insert(o.iq, 0, o.op, o.dest, 2, false, 3, false, o.func7, 5, "insn"); auto &u = dis2iss.req[o.iq][0].uop; u.func3 = o.func3; u.br_mask = 1 << TAG | 1 << 7; u.br_id = 9; u.rob_flag = false; if (o.op == UOP_CSR) u.imm = 7;
    int done = 0, asked = 0, csr = 0, redirects = 0; bool before = false;
    for (int c = 0; c < o.last + 12; c++) {
      rob_bcast.flush = false; dec_bcast.mispred = false; dec_bcast.br_mask = 0; dec_bcast.clear_mask = 0;
      if (c == when) { if (kind == 0 || kind == 4) rob_bcast.flush = true; if (kind == 1 || kind == 4 || kind == 5) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << TAG; } if (kind == 2) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << OTHER; dec_bcast.clear_mask = 1 << OTHER; } if (kind == 3) dec_bcast.clear_mask = 1 << TAG; if (kind == 5) dec_bcast.clear_mask = 1 << TAG; }
      if (c == when + 1 && kind == 3) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << TAG; }
      comb(); bool gone = removes[kind] && c >= when && !before;
      int out = 0, req = 0; for (int p = 0; p < ISSUE_WIDTH; p++) if (exu2rob.entry[p].valid) { out++; v_is<uint32_t>(exu2rob.entry[p].uop.rob_idx, 5, "completions belong to live instructions"); }
      for (auto &r : exe2lsu.agu_req) if (r.valid) { req++; v_is<uint32_t>(r.uop.rob_idx, 5, "memory requests belong to live instructions"); if (kind == 3 && c > when) V_REQUIRE(!(r.uop.br_mask & 1 << TAG), "a resolved tag disappears from a surviving instruction"); } for (auto &r : exe2lsu.sdu_req) if (r.valid) req++;
      if (gone) { V_REQUIRE(!out, "a removed instruction does not complete"); V_REQUIRE(!req, "a removed instruction asks nothing of memory"); V_REQUIRE(!exe2csr.we && !exe2csr.re, "a removed instruction touches no control register"); V_REQUIRE(!exu2id.mispred && !exu2id.clear_mask, "a removed branch neither redirects nor resolves"); }
      if (gone && c > when) { for (auto &w : iss_awake.wake) V_REQUIRE(!w.valid, "a removed instruction wakes nobody"); for (auto &e : iss2prf.iss_entry) V_REQUIRE(!e.valid, "a removed instruction is not issued"); for (auto &e : prf2exe.iss_entry) V_REQUIRE(!e.valid, "a removed instruction is not issued"); }
      done += out; asked += req; csr += exe2csr.we; redirects += exu2id.clear_mask != 0; if (out || req) before = true;
      edge(); if (kind == 3 && c == when) { for (auto &f : exu.fu_inst_r) if (f.valid) V_REQUIRE(!(f.uop.br_mask & 1 << TAG) && (f.uop.br_mask & 1 << 7), "a resolved tag disappears from a surviving instruction"); }
    }
    bool mem = o.op == UOP_LOAD || o.op == UOP_STA, survives = !removes[kind] || before;
    if (survives) { V_REQUIRE((mem ? asked : done) == 1, "a surviving instruction completes exactly once"); if (o.op == UOP_STD) V_REQUIRE(asked == 1, "a surviving store passes its data on once"); if (o.op == UOP_BR) V_REQUIRE(redirects == 1, "a surviving branch resolves once"); if (o.op == UOP_CSR) V_REQUIRE(csr == 1, "a surviving control-register access happens once"); }
    if (!survives) { V_REQUIRE(!done && !asked && !csr && !redirects, "a removed instruction has no effect"); v_is<uint32_t>(prf.reg_file[10], v_any<uint32_t>(v_name("r", 10)), "a removed instruction writes nothing"); }
    for (int q = 0; q < IQ_NUM; q++) V_REQUIRE(isu.iqs[q].count == 0, "nothing stays behind in a queue");
    for (auto &s : isu.div_wake_slots) V_REQUIRE(!s.valid, "nothing stays behind in the wake-up bookkeeping"); for (auto &s : isu.fp_wake_slots) V_REQUIRE(!s.valid, "nothing stays behind in the wake-up bookkeeping"); for (auto &s : exu.fu_inst_r) V_REQUIRE(!s.valid, "nothing stays behind in a unit");
  }
}
// results coming back from memory in a squash cycle
extern "C" void deliver(int part) {
  wire_up(); rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = v_any<bool>("mispred"); dec_bcast.br_mask = v_any<uint16_t>("squashed"); dec_bcast.clear_mask = v_any<uint16_t>("resolved");
  for (int i = 0; i < LSU_LOAD_WB_WIDTH; i++) { auto &w = lsu2exe.wb_req[i]; v_in(w.uop, v_name("ld", i)); w.valid = v_any<bool>(v_name("ldv", i)); w.uop.op = encode_uop_type(UOP_LOAD); w.uop.dest_preg = 10 + i; w.uop.rob_idx = 5 + i; }
  for (int i = 0; i < LSU_STA_COUNT; i++) { auto &w = lsu2exe.sta_wb_req[i]; v_in(w.uop, v_name("st", i)); w.valid = v_any<bool>(v_name("stv", i)); w.uop.op = encode_uop_type(UOP_STA); w.uop.dest_en = false; w.uop.dest_preg = 0; w.uop.rob_idx = 7 + i; }
  comb();
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    bool ld = p >= IQ_LD_PORT_BASE && p < IQ_LD_PORT_BASE + LSU_LOAD_WB_WIDTH, st = p >= IQ_STA_PORT_BASE && p < IQ_STA_PORT_BASE + LSU_STA_COUNT; if (!ld && !st) { V_REQUIRE(!exu2rob.entry[p].valid, "nothing completes that did not come back"); continue; }
    int i = ld ? p - IQ_LD_PORT_BASE : p - IQ_STA_PORT_BASE; const auto &w = ld ? lsu2exe.wb_req[i].uop : lsu2exe.sta_wb_req[i].uop; bool v = ld ? lsu2exe.wb_req[i].valid : lsu2exe.sta_wb_req[i].valid;
    bool gone = rob_bcast.flush || (dec_bcast.mispred && (w.br_mask & dec_bcast.br_mask)); v_is<bool>(exu2rob.entry[p].valid, v && !gone, "exactly the surviving memory results complete");
    if (v && !gone) { const auto &u = exu2rob.entry[p].uop; v_is<uint32_t>(u.rob_idx, w.rob_idx, "a memory result completes its own instruction"); v_is<uint32_t>(u.result, w.result, "a memory result keeps its value"); v_is<uint32_t>(u.diag_val, w.diag_val, "a memory result keeps its address"); v_is<bool>(u.page_fault_load, w.page_fault_load, "a memory result keeps its fault"); v_is<bool>(u.page_fault_store, w.page_fault_store, "a memory result keeps its fault"); }
    if (ld) { v_is<bool>(prf.inst_r_1[p].valid, v && !gone, "exactly the surviving memory results are written back"); if (v && !gone) { v_is<uint32_t>(prf.inst_r_1[p].uop.result, w.result, "a memory result keeps its value"); v_is<uint32_t>(prf.inst_r_1[p].uop.dest_preg, w.dest_preg, "a memory result goes to its own register"); v_is<uint32_t>(prf.inst_r_1[p].uop.br_mask, w.br_mask & ~dec_bcast.clear_mask & 0xffff, "a resolved tag disappears from a surviving result"); } }
  }
}
// queue contents and wake-up bookkeeping under any squash
extern "C" void queues(int part) {
  wire_up(); static const int iqs[5] = {IQ_INT, IQ_LD, IQ_STA, IQ_STD, IQ_BR}; static const UopType op[5] = {UOP_ADD, UOP_LOAD, UOP_STA, UOP_STD, UOP_BR};
  rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = v_any<bool>("mispred"); dec_bcast.br_mask = v_any<uint16_t>("squashed"); dec_bcast.clear_mask = v_any<uint16_t>("resolved");
  auto gone = [&](uint32_t m) { return rob_bcast.flush || (dec_bcast.mispred && (m & dec_bcast.br_mask & 0xffff)); }; auto left = [&](uint32_t m) { return (uint32_t)(m & ~dec_bcast.clear_mask & 0xffff); };
  if (part < 5) {
    int n = isu.iqs[iqs[part]].size, at[4] = {0, 1, n / 2, n - 1}; IqStoredUop was[4]; for (int k = 0; k < 4; k++) { hold(iqs[part], at[k], op[part], 30 + k, true, 34, k & 1, op[part] == UOP_ADD ? 40 + k : -1, 8 + k, v_name("held", k)); was[k] = isu.iqs[iqs[part]].entry[at[k]].uop; }
    comb(); V_REQUIRE(!iss2prf.iss_entry[0].valid, "a waiting instruction is not issued"); isu.seq(); IssueQueue &q = isu.iqs[iqs[part]]; int live = 0;
    for (int k = 0; k < 4; k++) { const auto &e = q.entry[at[k]]; bool g = gone(was[k].br_mask); v_is<bool>(e.valid, !g, "exactly the squashed instructions leave the queue"); if (e.valid) { live++; was[k].br_mask = left(was[k].br_mask); same_uop(e.uop, was[k], "a surviving instruction is unchanged except for resolved tags"); V_REQUIRE(e.uop.src1_busy, "a surviving instruction still waits"); } }
    v_is<int>(q.count, live, "the queue knows how many instructions it holds");
    // the survivors can still be woken, and removed ones leave no trace for their slot's next user
    for (int k = 0; k < 4; k++) { size_t row = q.matrix_row_base(30 + k) + q.slot_word(at[k]); bool marked = q.wake_matrix_src1[row] & q.slot_bit(at[k]); v_is<bool>(marked, q.entry[at[k]].valid, "a wake-up finds exactly the surviving instructions"); }
  } else {
    auto fill = [&](auto &s, const char *name, int reg) { s = {}; s.valid = v_any<bool>(v_rule(name, "valid")); s.br_mask = v_any<uint16_t>(v_rule(name, "tags")); s.dest_preg = reg; };
    for (int d = 0; d < ISU_MUL_WAKE_DEPTH; d++) for (int s = 0; s < ISU_MUL_WAKE_SLOT_NUM; s++) fill(isu.mul_wake_pipe[d][s], v_name("mul", d), 20 + d);
    for (auto &s : isu.div_wake_slots) { fill(s, "div", 30); s.countdown = 5; } for (auto &s : isu.fp_wake_slots) { fill(s, "fp", 31); s.countdown = 3; }
    auto mul = isu.mul_wake_pipe; auto d0 = isu.div_wake_slots[0], f0 = isu.fp_wake_slots[0]; auto m0 = isu.mul_wake_pipe[0][0]; (void)mul;
    comb(); isu.seq();
    auto same = [&](auto &now, auto &was, const char *rule) { bool v = was.valid && !gone(was.br_mask); v_is<bool>(now.valid, v, rule); if (v) { v_is<uint32_t>(now.dest_preg, was.dest_preg, rule); v_is<uint32_t>(now.br_mask, left(was.br_mask), rule); } };
    same(isu.div_wake_slots[0], d0, "exactly the squashed wake-ups are forgotten"); same(isu.fp_wake_slots[0], f0, "exactly the squashed wake-ups are forgotten"); if (ISU_MUL_WAKE_DEPTH > 1) same(isu.mul_wake_pipe[ISU_MUL_WAKE_DEPTH > 1 ? 1 : 0][0], m0, "exactly the squashed wake-ups are forgotten");
    else for (int s = 0; s < ISU_MUL_WAKE_SLOT_NUM; s++) V_REQUIRE(!isu.mul_wake_pipe[0][s].valid, "a wake-up happens once");
  }
}
// two branches resolving together: the older mispredicted one redirects, both tags are released
extern "C" void pair_br(int part) {
  wire_up(); rob_bcast.flush = false; dec_bcast.mispred = part & 1 ? v_any<bool>("mispred") : false; dec_bcast.br_mask = v_any<uint16_t>("squashed"); if (part & 2) { rob_bcast.flush = v_any<bool>("flush"); }
  int f[2], n = 0; for (int i = 0; i < TOTAL_FU_COUNT; i++) if (exu.fu_to_port[i] >= IQ_BR_PORT_BASE && exu.fu_to_port[i] < IQ_BR_PORT_BASE + 2 && n < 2) f[n++] = i; V_REQUIRE(n == 2, "both branch units exist");
  for (int k = 0; k < 2; k++) { auto &s = exu.fu_inst_r[f[k]]; PrfExeIO::PrfExeUop u; v_in(u, v_name("br", k)); s.uop = ExuInst::from_prf_exe_uop(u); s.valid = v_any<bool>(v_name("brv", k)); s.uop.op = encode_uop_type(k ? UOP_BR : UOP_JUMP); s.uop.br_id = 2 + k; s.uop.func3 = k ? 0 : s.uop.func3; }
  ExuInst was[2] = {exu.fu_inst_r[f[0]].uop, exu.fu_inst_r[f[1]].uop}; bool v[2], mp[2]; uint32_t tgt[2];
  for (int k = 0; k < 2; k++) { v[k] = exu.fu_inst_r[f[k]].valid && !rob_bcast.flush && !(dec_bcast.mispred && (was[k].br_mask & dec_bcast.br_mask)); ExuInst y = was[k]; ((BruUnit *)exu.units[f[k]])->impl_compute(y); mp[k] = y.mispred; tgt[k] = y.diag_val; }
  exu.comb_begin(); exu.comb_to_csr(); exu.comb_exec();
  uint32_t clear = (v[0] ? 1u << 2 : 0) | (v[1] ? 1u << 3 : 0); v_is<uint32_t>(exu2id.clear_mask, clear, "every surviving branch, and no other, resolves its tag");
  bool any = (v[0] && mp[0]) || (v[1] && mp[1]); v_is<bool>(exu2id.mispred, any, "a redirect happens exactly for a surviving mispredicted branch");
  bool second = v[1] && mp[1] && !(v[0] && mp[0] && (was[0].rob_flag == was[1].rob_flag ? was[0].rob_idx <= was[1].rob_idx : was[0].rob_idx >= was[1].rob_idx));
  // ages: same generation -> smaller index is older; different generation -> larger index is older
  if (any && !(v[0] && mp[0] && v[1] && mp[1] && was[0].rob_idx == was[1].rob_idx)) { int w = second; v_is<uint32_t>(exu2id.redirect_rob_idx, w ? was[1].rob_idx : was[0].rob_idx, "the oldest mispredicted branch redirects"); v_is<uint32_t>(exu2id.redirect_pc, w ? tgt[1] : tgt[0], "the redirect goes to that branch's target"); v_is<uint32_t>(exu2id.br_id, w ? 3u : 2u, "the redirect names that branch's tag"); v_is<uint32_t>(exu2id.ftq_idx, w ? was[1].ftq_idx : was[0].ftq_idx, "the redirect names that branch's fetch record"); }
}
// a second iterative instruction waiting behind a busy unit is squashed or survives on its own account
extern "C" void behind(int part) {
  int kind = part % 6; bool fp = part / 6 & 1, swap = part / 12; static const bool removes[6] = {true, true, false, false, true, true};
  for (int when = 2; when <= 9; when++) {
    wire_up(); sim_time = 100; for (int i = 1; i < PRF_NUM; i++) prf.reg_file[i] = v_any<uint32_t>(v_name("r", i));
    int first = 0, second = 0; bool before = false;
    for (int c = 0; c < 50; c++) {
      for (int q = 0; q < IQ_NUM; q++) for (auto &r : dis2iss.req[q]) r.valid = false;
      if (c < 2) { insert(IQ_INT, 0, fp ? UOP_FP : UOP_DIV, 10 + c, 2, false, 3, false, fp ? 0x0c : 1, 5 + c, c ? "b" : "a"); auto &u = dis2iss.req[IQ_INT][0].uop; u.func3 = fp ? 0 : 4; u.br_mask = (c != 0) != swap ? 1 << TAG | 1 << 9 : 1 << 8; u.rob_flag = false; }
      rob_bcast.flush = false; dec_bcast.mispred = false; dec_bcast.br_mask = 0; dec_bcast.clear_mask = 0;
      if (c == when) { if (kind == 0 || kind == 4) rob_bcast.flush = true; if (kind == 1 || kind == 4 || kind == 5) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << TAG; } if (kind == 2) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << OTHER; dec_bcast.clear_mask = 1 << OTHER; } if (kind == 3 || kind == 5) dec_bcast.clear_mask = 1 << TAG; }
      if (c == when + 1 && kind == 3) { dec_bcast.mispred = true; dec_bcast.br_mask = 1 << TAG; }
      comb(); for (int p = 0; p < ISSUE_WIDTH; p++) if (exu2rob.entry[p].valid) { int r = exu2rob.entry[p].uop.rob_idx; V_REQUIRE(r == 5 || r == 6, "completions belong to live instructions"); if ((r == 5) != swap) { first++; V_REQUIRE(kind != 0 && kind != 4 || c < when, "a removed instruction does not complete"); } else { second++; V_REQUIRE(!removes[kind] || c < when, "a removed instruction does not complete"); } if (c < when && (r == 6) != swap) before = true; }
      if (removes[kind] && c > when && !before) for (auto &w : iss_awake.wake) V_REQUIRE(!w.valid || w.preg != (swap ? 10 : 11), "a removed instruction wakes nobody");
      edge();
    }
    if (kind != 0 && kind != 4) V_REQUIRE(first == 1, "an instruction outside the squash completes exactly once"); if (!removes[kind]) V_REQUIRE(second == 1, "a surviving instruction completes exactly once");
    for (auto &s : exu.fu_inst_r) V_REQUIRE(!s.valid, "nothing stays behind in a unit"); V_REQUIRE(isu.iqs[IQ_INT].count == 0, "nothing stays behind in a queue");
  }
}
