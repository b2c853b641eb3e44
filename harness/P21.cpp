// P21: execution units neither lose, duplicate nor reorder work.
// ENTRY: pipelined 24
// ENTRY: iterative 12
// ENTRY: ports 48
// ENTRY: single
#include "back.h"
long long sim_time = 100;
using namespace bk;
static ExuInst insn(UopType op, int k, int func7, int func3) {
  PrfExeIO::PrfExeUop u; v_in(u, v_name("insn", k)); u.op = encode_uop_type(op); u.func7 = func7; u.func3 = func3; u.src1_en = u.src2_en = true; u.src2_is_imm = false; u.src1_is_pc = false; u.rob_idx = k; u.dest_en = true; u.dest_preg = 20 + k; u.br_mask = 0;
  return ExuInst::from_prf_exe_uop(u);
}
static void identity(const ExuInst &got, const ExuInst &want, uint32_t result) {
  same_uop(got, want, "a unit's output carries the instruction's own identity"); v_is<uint32_t>(got.result, result, "a unit's output carries the instruction's own result");
}
// every pattern of five cycles of offering and taking, with one squash
extern "C" void pipelined(int part) {
  int kind = part / 6, when = part % 6;   // squash kind: none, flush, one tag, another tag
  if (kind == 0 && when) return;
  for (int pat = 0; pat < 1024; pat++) {
    MulUnit mul("m", 0, MUL_MAX_LATENCY); sim_time = 100; int held[8], n = 0, next = 1; int64_t due[8]; uint32_t want[8]; ExuInst was[8]; bool tag[8];
    for (int c = 0; c < 8; c++, sim_time++) {
      bool offer = c < 5 && (pat >> c & 1), take = c >= 5 || (pat >> (5 + c) & 1); bool squash = kind && c == when;
      mul.comb_begin(); mul.in = {}; bool room = mul.out.ready; V_REQUIRE(room == (n < MUL_MAX_LATENCY), "a unit that can accept says so and one that cannot says so");
      if (squash) { mul.in.flush = true; mul.in.flush_mask = kind == 1 ? (wire<BR_MASK_WIDTH>)~0 : kind == 2 ? 2 : 4; }
      if (kind == 3 && squash) mul.in.clear_mask = 2;
      mul.comb_ctrl();
      if (squash) { int m = 0; for (int i = 0; i < n; i++) { bool gone = kind == 1 || (kind == 2 && tag[held[i]]); if (!gone) { due[m] = due[i]; held[m++] = held[i]; } } n = m; if (kind == 3) for (int i = 0; i < n; i++) was[held[i]].br_mask = 0; }
      if (offer && room) {
        ExuInst u = insn(UOP_MUL, next, 1, 0); tag[next] = next & 1; u.br_mask = tag[next] ? 2 : 0; if (squash && (kind == 1 || (kind == 2 && tag[next]))) { offer = false; }
        else { if (squash && kind == 3) u.br_mask = 0; mul.in.en = true; mul.in.inst = u; was[next] = u; want[next] = (uint32_t)u.src1_rdata * (uint32_t)u.src2_rdata; held[n] = next; due[n++] = sim_time + MUL_MAX_LATENCY - 1; next++; }
      }
      mul.comb_issue(); bool done = n && due[0] <= sim_time; V_REQUIRE(mul.out.complete == done, "a result appears after the unit's latency and stays until taken");
      if (done && mul.out.complete) identity(mul.out.inst, was[held[0]], want[held[0]]);
      if (take && done) { mul.in.consume = true; for (int i = 1; i < n; i++) { held[i - 1] = held[i]; due[i - 1] = due[i]; } n--; }
      mul.comb_consume(); V_REQUIRE(mul.out.ready == (n < MUL_MAX_LATENCY), "a unit that can accept says so and one that cannot says so"); mul.seq();
    }
  }
}
extern "C" void iterative(int part) {
  static const int f7[6] = {-1, 0x00, 0x08, 0x0c, 0x60, 0x2c}, lat[6] = {DIV_MAX_LATENCY, 5, 3, 10, 3, 10}; int k = part % 6; bool two = part >= 6;
  __v_model("FPUSoftfloat::impl_compute", (void *)fp_any);
  for (int kind = 0; kind < 4; kind++) for (int when = 0; when <= (kind ? lat[k] + 1 : 0); when++) for (int wait = 0; wait < 3; wait++) {
    DivUnit div("d", 0, DIV_MAX_LATENCY); FPUSoftfloat fp("f", 0, 10); AbstractFU *u = k ? (AbstractFU *)&fp : &div; sim_time = 100; ExuInst was; uint32_t want = 0; bool busy = false; int64_t due = 0; int left = wait, count = 0, outs = 0;
    for (int c = 0; c < 2 * lat[k] + 8; c++, sim_time++) {
      u->comb_begin(); u->in = {}; bool squash = kind && c == when; V_REQUIRE(u->out.ready == !busy, "a unit that can accept says so and one that cannot says so");
      if (squash) { u->in.flush = true; u->in.flush_mask = kind == 1 ? (wire<BR_MASK_WIDTH>)~0 : kind == 2 ? 2 : 4; if (kind == 3) u->in.clear_mask = 2; }
      u->comb_ctrl(); bool room = !busy; if (squash && busy) { if (kind == 1 || kind == 2) { busy = false; } else was.br_mask = 0; }
      bool offer = (c == 0 || (two && count < 2)) && room && !(squash && (kind == 1 || kind == 2));
      if (offer) { ExuInst x = k ? insn(UOP_FP, ++count, f7[k], 0) : insn(UOP_DIV, ++count, 1, 4); x.br_mask = squash ? 0 : 2; u->in.en = true; u->in.inst = x; was = x; ExuInst y = x; if (k) fp.impl_compute(y); else div.impl_compute(y); want = y.result; busy = true; due = sim_time + lat[k]; left = wait; }
      u->comb_issue(); bool done = busy && due <= sim_time; V_REQUIRE(u->out.complete == done, "a result appears after the unit's latency and stays until taken");
      if (done && u->out.complete) identity(u->out.inst, was, want);
      if (done && left-- == 0) { u->in.consume = true; busy = false; outs++; }
      u->comb_consume(); V_REQUIRE(u->out.ready == !busy, "a unit that can accept says so and one that cannot says so"); u->seq();
    }
    if (!kind) V_REQUIRE(outs == (two ? 2 : 1), "an accepted instruction comes out once");
  }
}
extern "C" void single() {
  AluUnit alu("a", 0);
  for (int pat = 0; pat < 4; pat++) { alu.comb_begin(); V_REQUIRE(!alu.out.complete, "nothing appears that was not accepted"); alu.in = {}; alu.comb_ctrl(); bool en = pat & 1, take = pat & 2; ExuInst x = insn(UOP_ADD, 3, 0, 0); alu.in.en = en; alu.in.inst = x; alu.comb_issue(); V_REQUIRE(alu.out.complete == en, "a result appears after the unit's latency"); if (en) { ExuInst y = x; alu.impl_compute(y); identity(alu.out.inst, x, y.result); } alu.in.consume = take; alu.comb_consume(); V_REQUIRE(alu.out.ready == (!en || take), "a unit whose result was not taken cannot accept"); alu.seq(); }
}
// streams of mixed operations through both arithmetic ports: every accepted instruction completes exactly once
extern "C" void ports(int part) {
  wire_up(); int port = part % 2, seed = part / 2; static const UopType kinds[2][3] = {{UOP_ADD, UOP_MUL, UOP_CSR}, {UOP_ADD, UOP_DIV, UOP_FP}};
  int sent = 0; ExuInst was[32]; uint32_t want[32]; int seen[32] = {}, wrote[32] = {}; unsigned r = seed * 2654435761u + 12345;
  for (int c = 0; c < 75; c++) {
    exu.comb_begin(); exu.comb_to_csr(); csr2exe.rdata = exe2csr.re ? __v_uf("csr", 32, (unsigned long long)exe2csr.idx) : 0; exu.comb_exec(); exu.comb_ready();
    for (int p = 0; p < ISSUE_WIDTH; p++) {
      if (exu2rob.entry[p].valid) { const auto &u = exu2rob.entry[p].uop; int k = u.rob_idx; V_REQUIRE(p == port && k < sent, "nothing completes that was not accepted"); if (k < sent) { V_REQUIRE(!seen[k], "an accepted instruction completes once"); seen[k]++; if (was[k].op != UOP_CSR) v_is<uint32_t>(u.result, want[k], "a completion carries the instruction's own result"); v_is<uint32_t>(u.op, was[k].op, "a completion carries the instruction's own identity"); } }
      if (exe2prf.entry[p].valid) { const auto &u = exe2prf.entry[p].uop; int k = (int)u.dest_preg - 20; V_REQUIRE(k >= 0 && k < sent && seen[k] == 1 && !wrote[k], "a register write belongs to the completing instruction"); if (k >= 0 && k < sent) { wrote[k]++; if (was[k].op != UOP_CSR) v_is<uint32_t>(u.result, want[k], "a register write carries the instruction's own result"); else v_is<uint32_t>(u.result, exe2csr.re ? (uint32_t)__v_uf("csr", 32, (unsigned long long)was[k].csr_idx) : 0u, "a register write carries the instruction's own result"); } }
    }
    for (auto &e : prf2exe.iss_entry) e.valid = false;
    r = r * 1103515245u + 12345; unsigned pick = r >> 16; int idle = seed & 1 ? 4 : 2; UopType op = kinds[port][pick % 3]; if (seed % 4 == 2 && op == UOP_CSR) op = UOP_MUL;
    bool live = c < 45 && sent < 30 && pick / 3 % idle != 0; if (live && (exe2iss.fu_ready_mask[port] & (1ULL << op))) {
      ExuInst u = insn(op, sent, op == UOP_MUL || op == UOP_DIV ? 1 : 0, op == UOP_DIV ? 4 : op == UOP_CSR ? 2 : 0); u.dest_en = true; if (op == UOP_CSR) u.imm = 0; was[sent] = u; ExuInst y = u;
      for (auto &m : exu.port_mappings[port].entries) if (m.support_mask & (1ULL << op)) { if (op == UOP_ADD) ((AluUnit *)m.fu)->impl_compute(y); if (op == UOP_MUL) ((MulUnit *)m.fu)->impl_compute(y); if (op == UOP_DIV) ((DivUnit *)m.fu)->impl_compute(y); if (op == UOP_FP) fp_any(nullptr, y); }
      want[sent] = y.result; prf2exe.iss_entry[port].valid = true; prf2exe.iss_entry[port].uop = u; sent++;
    }
    exu.comb_pipeline(); exu.seq(); sim_time++;
  }
  V_REQUIRE(sent > 3, "the units accept work"); for (int k = 0; k < sent; k++) { V_REQUIRE(seen[k] == 1, "an accepted instruction completes once"); V_REQUIRE(wrote[k] == 1, "an accepted instruction writes its register once"); }
}
