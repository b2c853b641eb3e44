// P06: CSR instructions in the pipeline: decode, operand selection in the
// execution stage, read, latched write, write at commit.
// ENTRY: dut_csr 42
// ENTRY: dut_csr_squash
#include "dut.h"
#include "priv.h"
#include "back-end/Exu/Exu.cpp"
#include "back-end/Exu/Csr.cpp"

static RobBroadcastIO bcast; static DecBroadcastIO dbc; static ExeCsrIO e2c; static CsrExeIO c2e; static RobCsrIO r2c; static CsrRobIO c2r; static CsrFrontIO c2f; static CsrStatusIO cst;
static PrfExeIO p2e; static LsuExeIO l2e;
static ExePrfIO e2p; static ExeIssIO e2i; static ExeLsuIO e2l; static ExuIdIO e2d; static ExuRobIO e2r;
extern "C" void dut_csr(int part) {
  int k = part / 2; bool immf = part % 2;
  uint32_t w = (v_any<uint32_t>("inst") & 0x000fbf80u) | 0x73 | (priv::num[k] << 20) | (immf ? 0x4000u : 0);
  V_ASSUME(((w >> 12) & 3) != 0);
  uint32_t a = isa::rs1(w) == 0 ? 0 : v_any<uint32_t>("rs1_value");
  static Exu exu(nullptr); static Csr csr;
  exu.in.rob_bcast = &bcast; exu.in.dec_bcast = &dbc; exu.in.csr2exe = &c2e; exu.in.prf2exe = &p2e; exu.in.lsu2exe = &l2e;
  exu.out.exe2csr = &e2c; exu.out.exe2prf = &e2p; exu.out.exe2iss = &e2i; exu.out.exe2lsu = &e2l; exu.out.exu2id = &e2d; exu.out.exu2rob = &e2r;
  exu.init();
  csr.in = {&e2c, &r2c, &bcast, nullptr};
  csr.out = {&c2e, &c2r, &c2f, &cst};
  priv::S s; priv::any(s);
  for (int i = 0; i < 21; i++) csr.CSR_RegFile[i] = s.csr[i];
  csr.privilege = s.priv; csr.csr_we = false;
  v_in(csr.csr_idx, "old_idx"); v_in(csr.csr_wdata, "old_wdata"); v_in(csr.csr_wcmd, "old_wcmd"); v_in(c2e, "left");
  DecRenIO::DecRenInst d = dut::decode(w, 0);
  V_REQUIRE(!d.illegal_inst, "CSR instruction accepted");
  RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d);
  r.dest_preg = d.dest_en ? 40 : 0;
  Dispatch::DispatchInst di = Dispatch::DispatchInst::from_ren_dis_inst(r);
  Dispatch dis(nullptr); UopPacket up[MAX_UOPS_PER_INST];
  int n = dis.decompose_inst(di, up);
  V_REQUIRE(n == 1, "CSR instruction is one part");
  ExuInst e = dut::to_exu(up[0].uop);
  e.src1_rdata = d.src1_en ? a : 0;
  int fu = -1;
  for (auto &m : exu.port_mappings[0].entries) if (m.support_mask & OP_MASK_CSR) fu = m.fu_idx;
  V_REQUIRE(fu >= 0, "CSR unit exists");
  for (int i = 0; i < TOTAL_FU_COUNT; i++) exu.fu_inst_r[i].valid = false;
  exu.fu_inst_r[fu].valid = true; exu.fu_inst_r[fu].uop = e;
  uint32_t old = s.csr[k];
  csr.comb_begin(); exu.comb_begin(); exu.comb_to_csr(); csr.comb_csr_read(); exu.comb_exec(); r2c.commit = false; csr.comb_csr_write();
  if (isa::rd(w) != 0) { V_REQUIRE(e2c.re, "read when a destination is named"); v_is<uint32_t>(c2e.rdata, old, v_rule("value read", priv::name[k]));
    V_REQUIRE(e2p.entry[0].valid && e2p.entry[0].uop.dest_en && e2p.entry[0].uop.dest_preg == 40, "old value is written to the named destination");
    v_is<uint32_t>(e2p.entry[0].uop.result, old, v_rule("value written to the destination", priv::name[k])); }
  V_REQUIRE(e2r.entry[0].valid, "CSR instruction completes");
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile_1[i], s.csr[i], "nothing written before commit");
  csr.seq();
  e2c = ExeCsrIO(); csr.comb_begin(); r2c.commit = true; csr.comb_csr_write(); csr.seq();
  priv::S t = s;
  priv::access(t, k, (w >> 12) & 7, immf ? isa::rs1(w) : a, isa::rs1(w) == 0);
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile[i], t.csr[i], v_rule(v_rule("after access to", priv::name[k]), priv::name[i]));
  v_is<uint32_t>(csr.privilege, s.priv, "privilege unchanged");
  V_REQUIRE(!csr.csr_we, "no write left pending");
}

// An executed CSR instruction that is squashed before it retires leaves no
// write behind for the next CSR instruction to commit.
extern "C" void dut_csr_squash(int) {
  static Csr csr;
  csr.in = {&e2c, &r2c, &bcast, nullptr}; csr.out = {&c2e, &c2r, &c2f, &cst};
  priv::S s; priv::any(s);
  for (int i = 0; i < 21; i++) csr.CSR_RegFile[i] = s.csr[i];
  csr.privilege = s.priv; csr.csr_we = false;
  e2c = ExeCsrIO(); e2c.we = true; v_in(e2c.idx, "idx"); v_in(e2c.wcmd, "wcmd"); v_in(e2c.wdata, "wdata");
  csr.comb_begin(); csr.comb_exception(); csr.comb_csr_write(); csr.seq();
  e2c = ExeCsrIO(); bcast.flush = true; csr.comb_begin(); csr.comb_csr_write(); csr.seq(); bcast.flush = false;
  e2c.re = true; v_in(e2c.idx, "idx2"); csr.comb_begin(); csr.comb_csr_write(); csr.seq();
  e2c = ExeCsrIO(); r2c.commit = true; csr.comb_begin(); csr.comb_csr_write(); csr.seq();
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile[i], s.csr[i], v_rule("squashed CSR write never lands", priv::name[i]));
}
