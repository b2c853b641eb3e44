// P01: results of computational instructions, pipeline side.
// ENTRY: dut_results 8
#include "dut.h"

extern "C" void dut_results(int part) {
  for (int o = part * 8; o < part * 8 + 8 && o < isa::NCOMP; o++) {
    uint32_t w = (v_any<uint32_t>("inst") & ~isa::enc[o].mask) | isa::enc[o].match;
    uint32_t a = v_any<uint32_t>("rs1_value"), b = v_any<uint32_t>("rs2_value"), pc = v_any<uint32_t>("pc");
    V_ASSUME(w != 0x00000013u); // the canonical no-operation is allowed to be dropped
    DecRenIO::DecRenInst d = dut::decode(w, pc);
    V_REQUIRE(!d.illegal_inst, "computational instruction accepted");
    RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d);
    Dispatch::DispatchInst di = Dispatch::DispatchInst::from_ren_dis_inst(r);
    Dispatch dis(nullptr);
    UopPacket up[MAX_UOPS_PER_INST];
    int n = dis.decompose_inst(di, up);
    V_REQUIRE(n == 1, "computational instruction is one part");
    ExuInst e = dut::to_exu(up[0].uop);
    e.src1_rdata = d.src1_areg == 0 ? 0 : a;
    e.src2_rdata = d.src2_areg == 0 ? 0 : b;
    e.pc = pc;
    uint64_t m = 1ull << e.op;
    V_REQUIRE((m & (OP_MASK_ALU | OP_MASK_MUL | OP_MASK_DIV)) != 0, "computational instruction has a unit");
    AluUnit alu("ALU", 0); MulUnit mul("MUL", 0, MUL_MAX_LATENCY); DivUnit div("DIV", 0, DIV_MAX_LATENCY);
    if (m & OP_MASK_MUL) mul.impl_compute(e);
    else if (m & OP_MASK_DIV) div.impl_compute(e);
    else alu.impl_compute(e);
    uint32_t ra = isa::rs1(w) == 0 ? 0 : a, rb = isa::rs2(w) == 0 ? 0 : b;
    v_is<uint32_t>(e.result, isa::result(o, w, pc, ra, rb), v_rule("pipeline result", isa::name[o]));
    v_is<uint32_t>(d.dest_areg, isa::rd(w), "pipeline destination");
    v_is<bool>(d.dest_en, isa::rd(w) != 0, "pipeline writes destination");
  }
}
