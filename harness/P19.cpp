// P19: wake-up.
// ENTRY: chain 16
// ENTRY: pair 40
// ENTRY: wake 8
// ENTRY: enter 4
#include "back.h"
long long sim_time = 100;
using namespace bk;
struct Prod { UopType op; int func7, func3; };
static const Prod prods[16] = {{UOP_ADD, 0, 0}, {UOP_MUL, 1, 0}, {UOP_MUL, 1, 3}, {UOP_DIV, 1, 4}, {UOP_DIV, 1, 7}, {UOP_FP, 0x00, 0}, {UOP_FP, 0x04, 0}, {UOP_FP, 0x08, 0}, {UOP_FP, 0x0c, 0}, {UOP_FP, 0x2c, 0}, {UOP_FP, 0x60, 0}, {UOP_FP, 0x50, 2}, {UOP_FP, 0x68, 0}, {UOP_FP, 0x10, 1}, {UOP_FP, 0x14, 0}, {UOP_FP, 0x70, 1}};
static uint32_t at(const PrfExeIO::PrfExeEntry &e) { return e.uop.rob_idx; }
// A producer and a consumer: the consumer gets the result, in the first cycle it can be bypassed.
extern "C" void chain(int part) {
  wire_up(); for (int i = 1; i < PRF_NUM; i++) prf.reg_file[i] = v_any<uint32_t>(v_name("r", i));
  const Prod &p = prods[part]; bool got = false; uint32_t result = 0; int made = -1;
  insert(IQ_INT, 0, p.op, 10, 2, false, 3, false, p.func7, 5, "producer"); dis2iss.req[IQ_INT][0].uop.func3 = p.func3; dis2iss.req[IQ_INT][0].uop.src2_is_imm = false;
  insert(IQ_INT, 1, UOP_ADD, 11, 10, true, 3, false, 0, 6, "consumer"); insert(IQ_BR, 0, UOP_BR, -1, 4, false, 10, true, 0, 7, "branch"); insert(IQ_STD, 0, UOP_STD, -1, 10, true, -1, false, 0, 8, "store");
  bool done[3] = {false, false, false};
  for (int c = 0; c < 30; c++) {
    comb();
    for (int q = 0; q < ISSUE_WIDTH; q++) if (exu2rob.entry[q].valid && exu2rob.entry[q].uop.rob_idx == 5 && !got) { got = true; made = c; result = exu2rob.entry[q].uop.result; }
    for (int q = 0; q < ISSUE_WIDTH; q++) if (prf2exe.iss_entry[q].valid) {
      const auto &u = prf2exe.iss_entry[q].uop; uint32_t r = at(prf2exe.iss_entry[q]);
      if (r >= 6 && r <= 8) {
        done[r - 6] = true; V_REQUIRE(got, "a consumer issues only when the result can be bypassed"); V_REQUIRE(made == c, "a consumer issues as soon as the result can be bypassed");
        v_is<uint32_t>(r == 7 ? u.src2_rdata : u.src1_rdata, result, "a consumer gets the producer's result");
      }
    }
    edge();
  }
  V_REQUIRE(got, "a producer completes"); V_REQUIRE(done[0] && done[1] && done[2], "every consumer wakes");
}
// Two long operations finishing close together: both consumers wake with their own value.
extern "C" void pair(int part) {
  static const int fp[4] = {0x00, 0x08, 0x0c, 0x60}; static const int lat[4] = {5, 3, 10, 3};
  {
    int v = part / 20; part %= 20;
    wire_up(); sim_time = 100; for (int i = 1; i < PRF_NUM; i++) prf.reg_file[i] = v_any<uint32_t>(v_name("r", i));
    int k = part % 4, shift = part / 4 - 2, gap = DIV_MAX_LATENCY - lat[k] + shift; bool mul = v == 1 && gap != DIV_MAX_LATENCY - MUL_MAX_LATENCY + 1;   // also a multiply due at the same time
    uint32_t res[3]; bool got[3] = {false, false, false}, used[3] = {false, false, false};
    insert(IQ_INT, 0, UOP_DIV, 10, 2, false, 3, false, 1, 20, "div"); insert(IQ_INT, 1, UOP_ADD, 11, 10, true, 3, false, 0, 30, "use_div");
    for (int c = 0; c < 40; c++) {
      if (c == gap) { insert(IQ_INT, 0, UOP_FP, 12, 2, false, 3, false, fp[k], 21, "fp"); insert(IQ_INT, 1, UOP_ADD, 13, 12, true, 3, false, 0, 31, "use_fp"); }
      if (mul && c == DIV_MAX_LATENCY - MUL_MAX_LATENCY + 1) { insert(IQ_INT, 0, UOP_MUL, 14, 2, false, 3, false, 1, 22, "mul"); insert(IQ_INT, 1, UOP_ADD, 15, 14, true, 3, false, 0, 32, "use_mul"); }
      comb();
      for (int q = 0; q < ISSUE_WIDTH; q++) { const auto &e = exe2prf.entry[q]; if (e.valid && e.uop.dest_en) for (int j = 0; j < 3; j++) if (e.uop.dest_preg == 10u + 2 * j && !got[j]) { got[j] = true; } }
      for (int q = 0; q < TOTAL_FU_COUNT; q++) { const auto &e = exe2prf.bypass[q]; if (e.valid && e.uop.dest_en) for (int j = 0; j < 3; j++) if (e.uop.dest_preg == 10u + 2 * j) res[j] = e.uop.result; }
      for (int q = 0; q < ISSUE_WIDTH; q++) if (prf2exe.iss_entry[q].valid) { uint32_t r = at(prf2exe.iss_entry[q]); if (r >= 30 && r < 33) { V_REQUIRE(!used[r - 30], "a consumer issues once"); used[r - 30] = true; v_is<uint32_t>(prf2exe.iss_entry[q].uop.src1_rdata, res[r - 30], "a consumer gets the producer's result"); } }
      edge();
    }
    for (int j = 0; j < 2 + mul; j++) { V_REQUIRE(got[j], "a producer completes"); V_REQUIRE(used[j], "every consumer wakes"); }
  }
}
// One cycle with every kind of wake-up source: exactly the operands naming a produced register become ready.
extern "C" void wake(int part) {
  wire_up();
  static const int where[2] = {0, 31}; int reg = 40 + part;   // which source produces the register the waiting instructions name
  for (int i = 0; i < 2; i++) { hold(IQ_INT, where[i], UOP_ADD, i ? 45 : reg, true, i ? reg : 46, true, 50 + i, 10 + i, v_name("w", i)); hold(IQ_LD, where[i] & 15, UOP_LOAD, i ? reg : 2, i, -1, true, 52 + i, 12 + i, v_name("l", i)); hold(IQ_BR, where[i] & 15, UOP_BR, reg, true, reg, true, -1, 14 + i, v_name("b", i)); }
  // sources: two loads, multiplier, divider, floating point, two single-cycle instructions issuing now
  bool v[7]; for (int i = 0; i < 7; i++) v[i] = v_any<bool>(v_name("due", i));
  for (int i = 0; i < 2; i++) { prf.inst_r[IQ_LD_PORT_BASE + i].valid = v[i]; v_in(prf.inst_r[IQ_LD_PORT_BASE + i].uop, v_name("load", i)); prf.inst_r[IQ_LD_PORT_BASE + i].uop.op = encode_uop_type(UOP_LOAD); prf.inst_r[IQ_LD_PORT_BASE + i].uop.dest_en = true; prf.inst_r[IQ_LD_PORT_BASE + i].uop.dest_preg = 40 + i; }
  isu.mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][0] = {}; isu.mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][0].valid = v[2]; isu.mul_wake_pipe[ISU_MUL_WAKE_DEPTH - 1][0].dest_preg = 42;
  isu.div_wake_slots[0] = {}; isu.div_wake_slots[0].valid = v[3]; isu.div_wake_slots[0].countdown = 0; isu.div_wake_slots[0].dest_preg = 43;
  isu.fp_wake_slots[0] = {}; isu.fp_wake_slots[0].valid = v[4]; isu.fp_wake_slots[0].countdown = 0; isu.fp_wake_slots[0].dest_preg = 44;
  isu.comb_begin(); prf.comb_begin(); prf.comb_awake(); isu.comb_ready();
  for (auto &e : iss2prf.iss_entry) e.valid = false;
  for (int i = 0; i < 2; i++) { auto &e = iss2prf.iss_entry[i]; v_in(e.uop, v_name("alu", i)); e.valid = v[5 + i]; e.uop.op = encode_uop_type(UOP_ADD); e.uop.dest_en = true; e.uop.dest_preg = 46 + i; }
  isu.comb_awake(); isu.comb_calc_latency_next();
  bool due[PRF_NUM] = {}; for (int i = 0; i < 7; i++) due[40 + i + (i > 4)] = v[i]; due[44] = v[4] && !v[3]; 
  for (int r = 40; r < 48; r++) { bool said = false; for (int k = 0; k < MAX_WAKEUP_PORTS; k++) said = said || (iss_awake.wake[k].valid && iss_awake.wake[k].preg == (uint32_t)r); if (r != 44) v_is<bool>(said, due[r], "every produced register is announced and no other"); else { V_REQUIRE(!said || v[4], "every produced register is announced and no other"); due[44] = said; } }
  for (int k = 0; k < MAX_WAKEUP_PORTS; k++) if (iss_awake.wake[k].valid) V_REQUIRE(iss_awake.wake[k].preg >= 40 && iss_awake.wake[k].preg < 48, "every produced register is announced and no other");
  bool kept = isu.fp_wake_slots_1[0].valid && isu.fp_wake_slots_1[0].dest_preg == 44 && isu.fp_wake_slots_1[0].countdown == 0; v_is<bool>(kept, v[4] && !due[44], "a wake-up that cannot be announced is announced later");
  IqStoredEntry was[6]; int n = 0; for (int iq : {IQ_INT, IQ_LD, IQ_BR}) for (int i = 0; i < 2; i++) was[n++] = isu.iqs[iq].entry[iq == IQ_INT ? where[i] : where[i] & 15];
  isu.comb_enq(); isu.comb_flush(); isu.seq();
  n = 0; for (int iq : {IQ_INT, IQ_LD, IQ_BR}) for (int i = 0; i < 2; i++, n++) {
    const auto &e = isu.iqs[iq].entry[iq == IQ_INT ? where[i] : where[i] & 15]; V_REQUIRE(e.valid, "waking removes nothing"); same_uop(e.uop, was[n].uop, "waking changes only readiness");
    if (e.uop.src1_en) v_is<bool>(e.uop.src1_busy, was[n].uop.src1_busy && !due[e.uop.src1_preg], "a wake-up makes ready exactly the operands naming the register");
    if (e.uop.src2_en) v_is<bool>(e.uop.src2_busy, was[n].uop.src2_busy && !due[e.uop.src2_preg], "a wake-up makes ready exactly the operands naming the register");
  }
}
// An instruction entering a queue sees the wake-ups of its cycle, and later ones reach it in its slot.
extern "C" void enter(int part) {
  wire_up(); int base = part & 1 ? 31 : 0; bool full = part & 2;
  for (int s = 0; s < 32; s++) if (s < base || (full && s != base && s < 31)) hold(IQ_INT, s, UOP_ADD, 2, true, 3, false, 4, s, "other");
  insert(IQ_INT, 0, UOP_ADD, 11, 10, true, 12, true, 0, 40, "new"); dis2iss.req[IQ_INT][0].uop.br_mask = v_any<uint16_t>("tags");
  isu.comb_begin(); isu.comb_ready(); int room = iss2dis.ready_num[IQ_INT]; isu.comb_issue();
  for (auto &w : iss_awake.wake) w = {}; bool w1 = v_any<bool>("w1"), w2 = v_any<bool>("w2"), w3 = v_any<bool>("w3"); iss_awake.wake[0].valid = w1; iss_awake.wake[0].preg = 10; iss_awake.wake[MAX_WAKEUP_PORTS - 1].valid = w2; iss_awake.wake[MAX_WAKEUP_PORTS - 1].preg = 12; iss_awake.wake[2].valid = w3; iss_awake.wake[2].preg = 13;
  DisIssIO::DisIssUop u = dis2iss.req[IQ_INT][0].uop; int held = isu.iqs[IQ_INT].count; isu.comb_enq(); isu.comb_flush(); isu.seq(); dis2iss = {};
  v_is<int>(room, 32 - held, "the announced room is the number of free slots"); v_is<int>(isu.iqs[IQ_INT].count, held + 1, "an accepted instruction is held once");
  int slot = -1, found = 0; for (int s = 0; s < 32; s++) if (isu.iqs[IQ_INT].entry[s].valid && isu.iqs[IQ_INT].entry[s].uop.rob_idx == 40) { slot = s; found++; } V_REQUIRE(found == 1, "an accepted instruction is held once"); if (found != 1) return;
  const auto &e = isu.iqs[IQ_INT].entry[slot]; same_uop(e.uop, u, "an accepted instruction is stored unchanged"); v_is<bool>(e.uop.src1_busy, !w1, "an entering instruction sees the wake-ups of its cycle"); v_is<bool>(e.uop.src2_busy, !w2, "an entering instruction sees the wake-ups of its cycle");
  // later wake-up
  isu.comb_begin(); IssueQueue &q = isu.iqs[IQ_INT]; q.in.wake_valid[1] = true; q.in.wake_pregs[1] = 10; q.in.wake_valid[3] = true; q.in.wake_pregs[3] = 12; q.comb_wakeup(); isu.seq();
  V_REQUIRE(!q.entry[slot].uop.src1_busy && !q.entry[slot].uop.src2_busy, "a later wake-up reaches an instruction in its queue");
}
