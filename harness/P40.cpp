// P40: single-precision instructions on the pipeline.
// ENTRY: unit 18
#include "dut.h"
#include "FPU.h"
#include "fp.h"
// Every floating-point encoding the pipeline accepts, from the instruction word through decoder, hand-overs and split to
// the unit; operand values unknown, registers and rounding mode enumerated.
extern "C" void unit(int o) {
  fp::model(); fp::Enc e = fp::enc(o);
  for (int ka = -1; ka < (fp::by_kind(o) ? fp::KINDS : 0); ka++) for (int kb = ka < 0 ? -1 : 0; kb < (ka < 0 ? 0 : fp::KINDS + 2); kb++) for (uint32_t rm = 0; rm < 8; rm++) {
    if (rm == 5 || rm == 6 || (!e.rm && rm)) continue;
    uint32_t w = (v_any<uint32_t>("inst") & ~e.mask) | e.match; if (e.rm) w = (w & ~0x7000u) | rm << 12;
    uint32_t a = v_any<uint32_t>("rs1_value"), b = v_any<uint32_t>("rs2_value"), pc = v_any<uint32_t>("pc"); if (ka >= 0) { a = fp::pattern(ka, "first"); b = kb >= fp::KINDS ? (kb & 1 ? a ^ 0x80000000u : a) : fp::pattern(kb, "second"); w = (w & ~0x000f8000u) | 5u << 15; if (!(e.mask >> 20 & 1)) w = (w & ~0x01f00000u) | 6u << 20; } softfloat_roundingMode = v_any<uint8_t>("old_mode") & 7;
    DecRenIO::DecRenInst d = dut::decode(w, pc); V_REQUIRE(!d.illegal_inst, "a floating-point instruction is accepted");
    RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d); Dispatch::DispatchInst di = Dispatch::DispatchInst::from_ren_dis_inst(r); Dispatch dis(nullptr); UopPacket up[MAX_UOPS_PER_INST];
    int n = dis.decompose_inst(di, up); V_REQUIRE(n == 1, "a floating-point instruction is one part"); ExuInst x = dut::to_exu(up[0].uop);
    x.src1_rdata = d.src1_areg == 0 ? 0 : a; x.src2_rdata = d.src2_areg == 0 ? 0 : b; x.pc = pc; V_REQUIRE((1ull << x.op & OP_MASK_FP) != 0, "a floating-point instruction goes to the floating-point unit");
    bool two = o <= fp::DIV || (o >= fp::SGNJ && o <= fp::FLE); V_REQUIRE(d.src1_en, "a floating-point instruction waits for its operands"); if (two) V_REQUIRE(d.src2_en, "a floating-point instruction waits for its operands");
    FPUSoftfloat unit("FPU", 0, 10); unit.impl_compute(x); uint32_t ra = isa::rs1(w) == 0 ? 0 : a, rb = isa::rs2(w) == 0 ? 0 : b;
    v_is<uint32_t>(x.result, fp::result(o, ra, rb, 0, fp::mode_of(rm)), v_rule("pipeline result of", fp::NAME[o])); v_is<uint32_t>(d.dest_areg, isa::rd(w), "pipeline floating-point destination"); v_is<bool>(d.dest_en, isa::rd(w) != 0, "pipeline floating-point instruction writes its destination");
    int lat = unit.calculate_latency(x); V_REQUIRE(lat >= 1 && lat <= 10, "a floating-point operation finishes within the unit's bound");
  }
}
