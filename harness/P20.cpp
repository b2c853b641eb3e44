// P20: operand read and write-back.
// ENTRY: read_ops 10
// ENTRY: newest
// ENTRY: store_back 4
// ENTRY: pcs 4
// ENTRY: flow 12
#include "back.h"
long long sim_time = 100;
using namespace bk;
static uint32_t val(int i) { return v_any<uint32_t>(v_name("reg", i)); }
static void regs() { for (int i = 0; i < PRF_NUM; i++) prf.reg_file[i] = i ? val(i) : 0; }
static void result(ExePrfIO::ExePrfEntry &e, int preg, const char *name) { v_in(e.uop, name); e.valid = v_any<bool>(v_rule(name, "valid")); e.uop.dest_preg = preg; }
// every live result sits in a different register; each operand gets the result naming it, or the stored value
extern "C" void read_ops(int port) {
  const int n = ISSUE_WIDTH + TOTAL_FU_COUNT;
  for (int k = 0; k < n + 2; k++) {
    wire_up(); regs();
    for (int j = 0; j < ISSUE_WIDTH; j++) result(prf.inst_r[j], 10 + j, v_name("late", j));
    for (int f = 0; f < TOTAL_FU_COUNT; f++) result(exe2prf.bypass[f], 10 + ISSUE_WIDTH + f, v_name("early", f));
    int a = k < n ? 10 + k : k == n ? 0 : 5, b = 10 + (k + 7) % n;
    for (int p = 0; p < ISSUE_WIDTH; p++) iss2prf.iss_entry[p].valid = false;
    auto &e = iss2prf.iss_entry[port]; v_in(e.uop, "insn"); e.valid = true; e.uop.op = encode_uop_type(port < 2 ? UOP_ADD : port < 4 ? UOP_LOAD : port < 6 ? UOP_STA : port < 8 ? UOP_STD : UOP_BR); e.uop.src1_preg = a; e.uop.src2_preg = b;
    prf.comb_begin(); prf.comb_awake(); prf.comb_write(); prf.comb_req_ftq(); prf.comb_read();
    auto want = [&](int r, bool en) -> uint32_t {
      if (!en || r == 0) return 0; uint32_t v = prf.reg_file[r];
      for (int j = 0; j < ISSUE_WIDTH; j++) if (r == 10 + j && prf.inst_r[j].valid && prf.inst_r[j].uop.dest_en) v = prf.inst_r[j].uop.result;
      for (int f = 0; f < TOTAL_FU_COUNT; f++) if (r == 10 + ISSUE_WIDTH + f && exe2prf.bypass[f].valid && exe2prf.bypass[f].uop.dest_en) v = exe2prf.bypass[f].uop.result;
      return v;
    };
    const auto &o = prf2exe.iss_entry[port]; V_REQUIRE(o.valid, "an issued instruction goes on to execution"); same_uop(o.uop, e.uop, "reading operands changes nothing else");
    if (e.uop.src1_en) v_is<uint32_t>(o.uop.src1_rdata, want(a, e.uop.src1_en), "first operand carries the newest value");
    if (e.uop.src2_en) v_is<uint32_t>(o.uop.src2_rdata, want(b, e.uop.src2_en), "second operand carries the newest value");
    for (int p = 0; p < ISSUE_WIDTH; p++) if (p != port) V_REQUIRE(!prf2exe.iss_entry[p].valid, "nothing else goes on to execution");
  }
}
// the same register in the file, in write-back and at the output of a unit: the unit's value is the newest. Register zero is always zero.
extern "C" void newest() {
  for (int r = 0; r < 20; r += 10) for (int j = 0; j < ISSUE_WIDTH; j++) for (int f = 0; f < TOTAL_FU_COUNT; f++) {
    wire_up(); regs(); for (auto &x : prf.inst_r) x.valid = false; for (auto &x : exe2prf.bypass) x.valid = false;
    result(prf.inst_r[j], r, "late"); result(exe2prf.bypass[f], r, "early"); auto &e = iss2prf.iss_entry[(j + f) % ISSUE_WIDTH]; for (auto &x : iss2prf.iss_entry) x.valid = false;
    v_in(e.uop, "insn"); e.valid = true; e.uop.op = encode_uop_type(UOP_ADD); e.uop.src1_is_pc = false; e.uop.src1_en = e.uop.src2_en = true; e.uop.src1_preg = e.uop.src2_preg = r; prf.comb_begin(); prf.comb_read();
    uint32_t v = r ? val(r) : 0; if (r && prf.inst_r[j].valid && prf.inst_r[j].uop.dest_en) v = prf.inst_r[j].uop.result; if (r && exe2prf.bypass[f].valid && exe2prf.bypass[f].uop.dest_en) v = exe2prf.bypass[f].uop.result;
    const auto &o = prf2exe.iss_entry[(j + f) % ISSUE_WIDTH].uop; v_is<uint32_t>(o.src1_rdata, v, r ? "the newest value wins" : "register zero reads zero"); v_is<uint32_t>(o.src2_rdata, v, r ? "the newest value wins" : "register zero reads zero");
  }
}
// completed results reach exactly their destination unless squashed
extern "C" void store_back(int part) {
  wire_up(); regs(); int base = part == 3 ? 0 : 8 + 15 * part;
  rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = v_any<bool>("mispred"); dec_bcast.br_mask = v_any<uint16_t>("squashed"); dec_bcast.clear_mask = v_any<uint16_t>("resolved");
  for (int j = 0; j < ISSUE_WIDTH; j++) { result(exe2prf.entry[j], base + j, v_name("done", j)); result(prf.inst_r[j], base + 20 + j, v_name("older", j)); }
  ExePrfIO in = exe2prf; ExePrfIO::ExePrfEntry older[ISSUE_WIDTH]; for (int j = 0; j < ISSUE_WIDTH; j++) older[j] = prf.inst_r[j];
  prf.comb_begin(); prf.comb_complete(); prf.comb_awake(); prf.comb_write(); prf.comb_req_ftq(); prf.comb_read(); prf.comb_pipeline(); prf.seq();
  auto stored = [&](int r, uint32_t before, const ExePrfIO::ExePrfEntry *e, int lo) { int j = r - lo; if (j >= 0 && j < ISSUE_WIDTH && e[j].valid && e[j].uop.dest_en && r) return (uint32_t)e[j].uop.result; return before; };
  uint32_t now[PRF_NUM]; for (int r = 0; r < PRF_NUM; r++) { now[r] = stored(r, r ? val(r) : 0, older, base + 20); v_is<uint32_t>(prf.reg_file[r], now[r], "a result is stored in exactly its destination"); }
  for (int j = 0; j < ISSUE_WIDTH; j++) {
    bool gone = rob_bcast.flush || (dec_bcast.mispred && (in.entry[j].uop.br_mask & dec_bcast.br_mask)); v_is<bool>(prf.inst_r[j].valid, in.entry[j].valid && !gone, "exactly the squashed results are dropped");
    if (prf.inst_r[j].valid) { v_is<uint32_t>(prf.inst_r[j].uop.result, in.entry[j].uop.result, "a result keeps its value"); v_is<uint32_t>(prf.inst_r[j].uop.dest_preg, in.entry[j].uop.dest_preg, "a result keeps its destination"); v_is<bool>(prf.inst_r[j].uop.dest_en, in.entry[j].uop.dest_en, "a result keeps its destination"); v_is<uint16_t>(prf.inst_r[j].uop.br_mask, (uint16_t)(in.entry[j].uop.br_mask & ~dec_bcast.clear_mask), "resolved tags disappear from a surviving result"); v_is<uint32_t>(prf.inst_r[j].uop.op, in.entry[j].uop.op, "a result keeps its operation"); }
    in.entry[j].valid = in.entry[j].valid && !gone;
  }
  exe2prf = ExePrfIO(); rob_bcast.flush = false; dec_bcast.mispred = false; dec_bcast.clear_mask = 0;
  prf.comb_begin(); prf.comb_complete(); prf.comb_awake(); prf.comb_write(); prf.comb_req_ftq(); prf.comb_read(); prf.comb_pipeline(); prf.seq();
  for (int r = 0; r < PRF_NUM; r++) v_is<uint32_t>(prf.reg_file[r], stored(r, now[r], in.entry, base), "a completed result is stored once, a squashed one is not");
  V_REQUIRE(prf.reg_file[0] == 0, "register zero stays zero");
}
// the program counter and prediction an instruction gets come from its own fetch record
extern "C" void pcs(int part) {
  wire_up(); regs();
  for (int p = 0; p < ISSUE_WIDTH; p++) { auto &e = iss2prf.iss_entry[p]; v_in(e.uop, v_name("insn", p)); e.valid = v_any<bool>(v_name("there", p)); e.uop.src1_preg = e.uop.src2_preg = 5; e.uop.op = encode_uop_type(p < 2 ? (part & 1 ? UOP_ADD : p ? UOP_DIV : UOP_MUL) : p < 4 ? UOP_LOAD : p < 6 ? UOP_STA : p < 8 ? UOP_STD : (part & 2 ? UOP_JUMP : UOP_BR)); if (part == 1) e.uop.src1_is_pc = true; }
  prf.comb_begin(); prf.comb_req_ftq(); bool there[FTQ_PRF_PC_PORT_NUM];
  for (int k = 0; k < FTQ_PRF_PC_PORT_NUM; k++) { auto &q = pc_req.req[k]; auto &r = pc_resp.resp[k]; r = {}; there[k] = v_any<bool>(v_name("known", k)); r.valid = q.valid && there[k]; unsigned long long i = q.ftq_idx, o = q.ftq_offset; if (r.valid) { r.pc = __v_uf("pc", 32, i, o); r.pred_taken = __v_uf("taken", 1, i, o); r.next_pc = __v_uf("next", 32, i, o); } }
  prf.comb_read();
  for (int p = 0; p < ISSUE_WIDTH; p++) if (iss2prf.iss_entry[p].valid) {
    const auto &u = iss2prf.iss_entry[p].uop; const auto &o = prf2exe.iss_entry[p].uop; bool needs = (p < 2 && (part & 1) && u.src1_is_pc) || p >= 8; unsigned long long i = u.ftq_idx, f = u.ftq_offset;
    if (o.ftq_resp_valid) { V_REQUIRE(needs, "only instructions that use it are given a program counter"); v_is<uint32_t>(o.pc, (uint32_t)__v_uf("pc", 32, i, f), "program counter of the instruction's own fetch record"); v_is<bool>(o.ftq_pred_taken, (bool)__v_uf("taken", 1, i, f), "prediction of the instruction's own fetch record"); v_is<uint32_t>(o.ftq_next_pc, (uint32_t)__v_uf("next", 32, i, f), "predicted target of the instruction's own fetch record"); }
    if (needs) { int k = p < 2 ? p : 2 + p - 8; v_is<bool>(o.ftq_resp_valid, there[k], "an instruction that uses its program counter is given it"); }
  }
}
// a result seen at the units' outputs can be read in every later cycle, wherever it has got to
extern "C" void flow(int part) {
  {
    int wait = part / 3; part %= 3; wire_up(); regs(); static const UopType ops[3] = {UOP_ADD, UOP_MUL, UOP_LOAD}; int r = 20; uint32_t v = 0; bool made = false; int left = wait;
    if (part < 2) { insert(IQ_INT, 0, ops[part], r, 2, false, 3, false, part, 5, "producer"); } 
    for (int c = 0; c < 12; c++) {
      if (part == 2) { lsu2exe = {}; if (c == 1) { auto &w = lsu2exe.wb_req[1]; v_in(w.uop, "loaded"); w.valid = true; w.uop.op = encode_uop_type(UOP_LOAD); w.uop.dest_en = true; w.uop.dest_preg = r; w.uop.br_mask = 0; v = w.uop.result; } }
      comb();
      if (!made) for (int f = 0; f < TOTAL_FU_COUNT; f++) if (exe2prf.bypass[f].valid && exe2prf.bypass[f].uop.dest_preg == (uint32_t)r) { made = true; v = exe2prf.bypass[f].uop.result; }
      if (part == 2 && c == 2) made = true;   // readable from the cycle after the memory unit delivers it
      if (made && left-- == 0) { auto &e = iss2prf.iss_entry[8]; v_in(e.uop, "late"); e.valid = true; e.uop.op = encode_uop_type(UOP_BR); e.uop.src1_en = true; e.uop.src1_preg = r; prf.comb_read(); v_is<uint32_t>(prf2exe.iss_entry[8].uop.src1_rdata, v, "a produced value is readable in every later cycle"); e.valid = false; prf2exe.iss_entry[8].valid = false; }
      edge();
    }
    V_REQUIRE(made, "the producer completes"); v_is<uint32_t>(prf.reg_file[r], v, "a produced value ends in the register file");
    for (int i = 0; i < PRF_NUM; i++) if (i != r) v_is<uint32_t>(prf.reg_file[i], i ? val(i) : 0, "no other register changes");
  }
}
