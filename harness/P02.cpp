// P02: the decoder, driven through its cycle function with arbitrary leftovers
// in the output latch.
// ENTRY: decode_class 17
#include "dut.h"

static const uint32_t known_csr[] = {0x300, 0x301, 0x302, 0x303, 0x304, 0x305, 0x340, 0x341, 0x342, 0x343, 0x344, 0x100, 0x104, 0x105, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0xf14};

static PreIduIssueIO issue; static RenDecIO ren2dec; static RobBroadcastIO rob_bcast; static ExuIdIO exu2id;
static DecRenIO dec2ren; static DecBroadcastIO dec_bcast; static IduConsumeIO consume;

// decodes w in slot s and returns the record handed to rename
static DecRenIO::DecRenInst run(uint32_t w, int s, bool fault) {
  static Idu idu(nullptr, 2);
  idu.in = {&issue, &ren2dec, &rob_bcast, &exu2id};
  idu.out = {&dec2ren, &dec_bcast, &consume};
  idu.init();
  v_in(dec2ren, "left");
  for (int i = 0; i < DECODE_WIDTH; i++) {
    v_in(issue.entries[i], "entry");
    issue.entries[i].valid = i == s;
    issue.entries[i].inst = w;
    issue.entries[i].page_fault_inst = fault;
  }
  idu.comb_begin();
  idu.comb_decode();
  V_REQUIRE(dec2ren.valid[s], "accepted slot is decoded");
  for (int i = 0; i < DECODE_WIDTH; i++) if (i != s) V_REQUIRE(!dec2ren.valid[i], "empty slot stays empty");
  return dec2ren.uop[s];
}
static void common(const DecRenIO::DecRenInst &d, uint32_t w, int type, bool r1, bool r2, bool writes) {
  V_REQUIRE(!d.illegal_inst, "supported instruction is not illegal");
  V_REQUIRE(!d.page_fault_inst, "no fetch fault invented");
  v_is<uint32_t>(decode_inst_type(d.type), type, "operation");
  if (r1) { V_REQUIRE(d.src1_en, "first source used"); v_is<uint32_t>(d.src1_areg, isa::rs1(w), "first source register"); }
  if (r2) { V_REQUIRE(d.src2_en, "second source used"); v_is<uint32_t>(d.src2_areg, isa::rs2(w), "second source register"); }
  if (writes) { v_is<uint32_t>(d.dest_areg, isa::rd(w), "destination register"); v_is<bool>(d.dest_en, isa::rd(w) != 0, "destination enable"); }
  else V_REQUIRE(!d.dest_en, "no destination claimed");
  v_is<bool>(d.is_atomic, type == AMO, "atomic flag");
  v_is<uint32_t>(d.diag_val, w, "word kept for diagnosis");
}
extern "C" void decode_class(int part) {
  uint32_t u = v_any<uint32_t>("word");
  int s = part % DECODE_WIDTH;
  DecRenIO::DecRenInst d;
  uint32_t w;
  switch (part) {
  case 0: w = (u & ~0x7fu) | 0x37; d = run(w, s, false); common(d, w, ADD, false, false, true); v_is<uint32_t>(d.imm, isa::immU(w), "immediate"); V_REQUIRE(!d.src1_is_pc && d.src2_is_imm && d.src1_areg == 0 && d.func3 == 0, "lui operands"); break;
  case 1: w = (u & ~0x7fu) | 0x17; d = run(w, s, false); common(d, w, ADD, false, false, true); v_is<uint32_t>(d.imm, isa::immU(w), "immediate"); V_REQUIRE(d.src1_is_pc && d.src2_is_imm && d.func3 == 0, "auipc operands"); break;
  case 2: w = (u & ~0x7fu) | 0x6f; d = run(w, s, false); common(d, w, JAL, false, false, true); v_is<uint32_t>(d.imm, isa::immJ(w), "immediate"); V_REQUIRE(d.src1_is_pc && d.src2_is_imm && !d.src1_en && !d.src2_en, "jal operands"); break;
  case 3: w = (u & ~0x707fu) | 0x67; d = run(w, s, false); common(d, w, JALR, true, false, true); v_is<uint32_t>(d.imm, isa::immI(w), "immediate"); V_REQUIRE(!d.src2_en, "jalr operands"); break;
  case 4: w = (u & ~0x7fu) | 0x63; V_ASSUME(((w >> 13) & 3) != 1); d = run(w, s, false); common(d, w, BR, true, true, false); v_is<uint32_t>(d.imm, isa::immB(w), "immediate"); v_is<uint32_t>(d.func3, (w >> 12) & 7, "condition"); break;
  case 5: w = (u & ~0x7fu) | 0x03; V_ASSUME(((w >> 12) & 3) != 3 && ((w >> 12) & 7) != 6); d = run(w, s, false); common(d, w, LOAD, true, false, true); v_is<uint32_t>(d.imm, isa::immI(w), "immediate"); v_is<uint32_t>(d.func3, (w >> 12) & 7, "access size"); V_REQUIRE(!d.src2_en, "load reads one register"); break;
  case 6: w = (u & ~0x7fu) | 0x23; V_ASSUME(((w >> 12) & 7) < 3); d = run(w, s, false); common(d, w, STORE, true, true, false); v_is<uint32_t>(d.imm, isa::immS(w), "immediate"); v_is<uint32_t>(d.func3, (w >> 12) & 7, "access size"); break;
  case 7: w = (u & ~0x7fu) | 0x13; d = run(w, s, false); common(d, w, ADD, true, false, true); v_is<uint32_t>(d.imm, isa::immI(w), "immediate"); v_is<uint32_t>(d.func3, (w >> 12) & 7, "function"); v_is<uint32_t>(d.func7, w >> 25, "function extension"); V_REQUIRE(d.src2_is_imm && !d.src1_is_pc && !d.src2_en, "immediate operand"); break;
  case 8: w = (u & ~0x7fu) | 0x33; d = run(w, s, false); common(d, w, (w >> 25) == 1 ? (((w >> 14) & 1) ? DIV : MUL) : ADD, true, true, true); v_is<uint32_t>(d.func3, (w >> 12) & 7, "function"); v_is<uint32_t>(d.func7, w >> 25, "function extension"); V_REQUIRE(!d.src2_is_imm && !d.src1_is_pc, "register operands"); break;
  case 9: w = (u & ~0x707fu) | 0x0f; d = run(w, s, false); common(d, w, FENCE, false, false, false); w = (u & ~0x707fu) | 0x100f; d = run(w, s, false); common(d, w, FENCE_I, false, false, false); break;
  case 10: case 11: { // CSR forms
    w = (u & ~0x7fu) | 0x73; V_ASSUME(((w >> 12) & 3) != 0);
    bool k = false; for (uint32_t c : known_csr) if ((w >> 20) == c) k = true;
    if (part == 10) {
      V_ASSUME(k); d = run(w, s, false); common(d, w, CSR, (w & 0x4000) == 0, false, true);
      v_is<uint32_t>(d.csr_idx, w >> 20, "control register number"); v_is<uint32_t>(d.func3, (w >> 12) & 7, "function"); v_is<bool>(d.src2_is_imm, (w >> 14) & 1, "immediate form");
      if ((w >> 14) & 1) v_is<uint32_t>(d.imm, isa::rs1(w), "immediate");
    } else {
      V_ASSUME(!k); d = run(w, s, false);
      V_REQUIRE(!d.dest_en && !d.src1_en && !d.src2_en, "unknown control register claims nothing");
      v_is<bool>(d.illegal_inst, (w >> 20) == 0xc01 || (w >> 20) == 0xc81, "time reads are emulated by a trap");
    }
    break;
  }
  case 12: {
    static const uint32_t words[] = {0x00000073, 0x00100073, 0x30200073, 0x10200073, 0x10500073};
    static const int types[] = {ECALL, EBREAK, MRET, SRET, WFI};
    for (int i = 0; i < 5; i++) { d = run(words[i], s, false); common(d, words[i], types[i], false, false, false); }
    w = (u & 0x01ff8000u) | 0x12000073; d = run(w, s, false); common(d, w, SFENCE_VMA, true, true, false);
    break;
  }
  case 13: { // atomics
    w = (u & ~0x707fu) | 0x202f; uint32_t f = w >> 27;
    V_ASSUME(f < 5 || f == 8 || f == 12 || f == 16 || f == 20 || f == 24 || f == 28); V_ASSUME(f != 2 || isa::rs2(w) == 0);
    d = run(w, s, false);
    // a read-modify-write with rd=x0 may use a hidden temporary, never an architectural register
    if (isa::rd(w) == 0 && f != 2 && f != 3) { V_REQUIRE(!d.dest_en || d.dest_areg >= 32, "discarded atomic result names no visible register"); V_REQUIRE(!d.illegal_inst && d.is_atomic && d.src1_en && d.src2_en && decode_inst_type(d.type) == AMO, "atomic with discarded result"); v_is<uint32_t>(d.src1_areg, isa::rs1(w), "first source register"); v_is<uint32_t>(d.src2_areg, isa::rs2(w), "second source register"); }
    else common(d, w, AMO, true, f != 2, true);
    v_is<uint32_t>(d.imm, 0, "immediate"); v_is<uint32_t>(d.func7 >> 2, f, "function"); v_is<uint32_t>(d.func3, 2, "access size");
    break;
  }
  case 14: { // single-precision arithmetic
    w = (u & ~0x7fu) | 0x53; uint32_t f = w >> 25;
    bool two = f == 0 || f == 4 || f == 8 || f == 12 || f == 0x10 || f == 0x14 || f == 0x50, one = f == 0x2c || f == 0x60 || f == 0x68 || f == 0x70;
    V_ASSUME(two || one); d = run(w, s, false); common(d, w, FP, true, two, true);
    v_is<uint32_t>(d.func3, (w >> 12) & 7, "function"); v_is<uint32_t>(d.func7, f, "function extension"); if (one) v_is<uint32_t>(d.imm, isa::rs2(w), "conversion selector");
    break;
  }
  case 15: { // every other major opcode
    w = u; uint32_t o = w & 0x7f;
    V_ASSUME(o != 0x37 && o != 0x17 && o != 0x6f && o != 0x67 && o != 0x63 && o != 0x03 && o != 0x23 && o != 0x13 && o != 0x33 && o != 0x0f && o != 0x73 && o != 0x2f && o != 0x53);
    d = run(w, s, false);
    V_REQUIRE(d.illegal_inst, "unsupported opcode is illegal"); V_REQUIRE(!d.dest_en && !d.src1_en && !d.src2_en, "illegal instruction claims no register"); v_is<uint32_t>(d.diag_val, w, "word kept for diagnosis");
    break;
  }
  case 16: // fetch fault: the word is not decoded at all
    w = u; d = run(w, s, true);
    V_REQUIRE(d.page_fault_inst, "fetch fault reported"); V_REQUIRE(!d.dest_en && !d.src1_en && !d.src2_en && !d.illegal_inst && !d.is_atomic, "faulting fetch claims nothing"); v_is<uint32_t>(decode_inst_type(d.type), NOP, "faulting fetch executes nothing");
    break;
  }
}
