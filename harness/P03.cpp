// P03: branches and jumps in the branch unit and the predecoder.
// ENTRY: dut_branch 8
// ENTRY: predecoder 2
#include "dut.h"
#include "front-end/predecode.cpp"

extern "C" void dut_branch(int part) {
  int o = isa::JAL + part;
  uint32_t w = (v_any<uint32_t>("inst") & ~isa::enc[o].mask) | isa::enc[o].match;
  uint32_t a = v_any<uint32_t>("rs1_value"), b = v_any<uint32_t>("rs2_value"), pc = v_any<uint32_t>("pc");
  DecRenIO::DecRenInst d = dut::decode(w, pc);
  RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d);
  Dispatch::DispatchInst di = Dispatch::DispatchInst::from_ren_dis_inst(r);
  Dispatch dis(nullptr);
  UopPacket up[MAX_UOPS_PER_INST];
  int n = dis.decompose_inst(di, up);
  bool jump = o == isa::JAL || o == isa::JALR;
  V_REQUIRE(n == (jump ? 2 : 1), "number of parts");
  uint32_t ra = isa::rs1(w) == 0 ? 0 : a, rb = isa::rs2(w) == 0 ? 0 : b;
  bool linked = false, branched = false;
  for (int i = 0; i < n; i++) {
    ExuInst e = dut::to_exu(up[i].uop);
    e.src1_rdata = d.src1_areg == 0 ? 0 : a; e.src2_rdata = d.src2_areg == 0 ? 0 : b;
    e.pc = pc;
    v_in(e.ftq_pred_taken, "pred_taken"); v_in(e.ftq_next_pc, "pred_target");
    bool pt = e.ftq_pred_taken; uint32_t pn = e.ftq_next_pc;
    uint64_t m = 1ull << e.op;
    if (m & OP_MASK_BR) {
      branched = true;
      BruUnit bru("BRU", 0); bru.impl_compute(e);
      bool tk = jump || isa::taken(o, ra, rb);
      uint32_t target = o == isa::JAL ? pc + isa::immJ(w) : o == isa::JALR ? (ra + isa::immI(w)) & ~1u : pc + isa::immB(w);
      v_is<bool>(e.br_taken, tk, v_rule("branch direction", isa::name[o]));
      v_is<uint32_t>(e.diag_val, tk ? target : pc + 4, v_rule("next address", isa::name[o]));
      uint32_t predicted = pt ? pn : pc + 4, actual = tk ? target : pc + 4;
      if (predicted != actual) V_REQUIRE(e.mispred, v_rule("wrong prediction is redirected", isa::name[o]));
      if (tk == pt && predicted == actual) V_REQUIRE(!e.mispred, v_rule("right prediction is not redirected", isa::name[o]));
      V_REQUIRE(!up[i].uop.dest_en, "branch part writes no register");
    } else {
      linked = true;
      V_REQUIRE((m & OP_MASK_ALU) != 0, "link part has a unit");
      AluUnit alu("ALU", 0); alu.impl_compute(e);
      v_is<uint32_t>(e.result, pc + 4, v_rule("link value", isa::name[o]));
      v_is<bool>(up[i].uop.dest_en, isa::rd(w) != 0, "link register written");
    }
  }
  V_REQUIRE(branched && linked == jump, "parts of the instruction");
}
extern "C" void predecoder(int part) {
  predecode_in in; predecode_read_data rd; PredecodeResult out;
  v_in(in, "predec"); v_in(out, "left");
  uint32_t w = in.inst, pc = in.pc;
  predecode_seq_read(&in, &rd);
  predecode_comb(rd, out);
  uint32_t o = w & 0x7f;
  v_is<uint32_t>(out.type, o == 0x6f ? PREDECODE_JAL : o == 0x67 ? PREDECODE_JALR : o == 0x63 ? PREDECODE_DIRECT_JUMP_NO_JAL : PREDECODE_NON_BRANCH, "predecoded kind");
  if (o == 0x6f) v_is<uint32_t>(out.target_address, pc + isa::immJ(w), "predecoded jal target");
  if (o == 0x63) v_is<uint32_t>(out.target_address, pc + isa::immB(w), "predecoded branch target");
  if (part == 1) { // the decoder calls the same words branches
    DecRenIO::DecRenInst d = dut::decode(w, pc);
    InstType t = decode_inst_type(d.type);
    v_is<bool>(t == JAL || t == JALR || t == BR, out.type != PREDECODE_NON_BRANCH, "predecoder and decoder agree on what is a branch");
    if (decode_inst_type(d.type) == JAL || decode_inst_type(d.type) == BR) v_is<uint32_t>(out.target_address, pc + d.imm, "predecoder and decoder agree on the target");
  }
}
