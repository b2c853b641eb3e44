// P05: atomic operations, pipeline data unit.
// ENTRY: dut_amo 11
#include "dut.h"
static const uint32_t f5[] = {0, 1, 4, 8, 12, 16, 20, 24, 28, 2, 3};
static uint32_t combine(uint32_t f, uint32_t old, uint32_t b) {
  switch (f) {
  case 0: return old + b;
  case 1: return b;
  case 4: return old ^ b;
  case 8: return old | b;
  case 12: return old & b;
  case 16: return (int32_t)old < (int32_t)b ? old : b;
  case 20: return (int32_t)old < (int32_t)b ? b : old;
  case 24: return old < b ? old : b;
  default: return old < b ? b : old;
  }
}
extern "C" void dut_amo(int part) {
  uint32_t f = f5[part];
  uint32_t w = (v_any<uint32_t>("inst") & 0x07fff8ffu & ~0x7fu & ~0x7000u) | 0x202f | (f << 27) | (v_any<uint32_t>("inst") & 0xf80);
  if (f == 2) w &= ~0x01f00000u;
  DecRenIO::DecRenInst d = dut::decode(w, 0);
  RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d);
  v_in(r.dest_preg, "dest_preg"); v_in(r.src1_preg, "src1_preg"); v_in(r.src2_preg, "src2_preg");
  Dispatch::DispatchInst di = Dispatch::DispatchInst::from_ren_dis_inst(r);
  Dispatch dis(nullptr);
  UopPacket up[MAX_UOPS_PER_INST];
  int n = dis.decompose_inst(di, up);
  v_is<uint32_t>(n, f == 2 ? 1 : f == 3 ? 2 : 3, "parts of an atomic");
  int loads = 0, stas = 0, stds = 0;
  for (int i = 0; i < n; i++) {
    auto &u = up[i].uop;
    uint32_t op = u.op;
    if (op == UOP_LOAD) {
      loads++;
      V_REQUIRE(up[i].iq_id == IQ_LD && u.src1_en, "atomic load part"); v_is<uint32_t>(u.src1_preg, r.src1_preg, "atomic load address register");
      v_is<uint32_t>(u.imm, 0, "atomic address has no offset");
      if (f != 3) { v_is<uint32_t>(u.dest_preg, r.dest_preg, "atomic load destination"); v_is<bool>(u.dest_en, d.dest_en, "atomic load writes its destination"); }
    } else if (op == UOP_STA) {
      stas++;
      V_REQUIRE(up[i].iq_id == IQ_STA && u.src1_en, "atomic store-address part"); v_is<uint32_t>(u.src1_preg, r.src1_preg, "atomic store address register"); v_is<uint32_t>(u.imm, 0, "atomic address has no offset");
      if (f == 3) { V_REQUIRE(u.dest_en || isa::rd(w) == 0, "store-conditional writes its flag"); v_is<uint32_t>(u.dest_preg, r.dest_preg, "store-conditional flag register"); } else V_REQUIRE(!u.dest_en, "read-modify-write store part writes no register");
    } else if (op == UOP_STD) {
      stds++;
      V_REQUIRE(up[i].iq_id == IQ_STD && u.src2_en && !u.dest_en, "atomic store-data part"); v_is<uint32_t>(u.src2_preg, r.src2_preg, "atomic operand register");
      if (f != 3 && f != 1) { V_REQUIRE(u.src1_en, "combination waits for the old word"); v_is<uint32_t>(u.src1_preg, r.dest_preg, "combination reads the loaded word"); V_REQUIRE(u.src1_busy, "combination waits for the load"); }
      ExuInst e = dut::to_exu(u);
      uint32_t old = v_any<uint32_t>("old"), b = v_any<uint32_t>("operand");
      e.src1_rdata = old; e.src2_rdata = b;
      SduUnit sdu("SDU", 0); sdu.impl_compute(e);
      v_is<uint32_t>(e.result, f == 3 ? b : combine(f, old, b), "atomic stored word");
    } else V_REQUIRE(false, "unexpected part of an atomic");
  }
  V_REQUIRE(loads == (f != 3) && stas == (f != 2) && stds == (f != 2), "one part of each kind");
  V_REQUIRE(f == 2 || f == 3 || d.dest_en, "read-modify-write always has a register for the old word");
}
