// P07: trap entry and return in the pipeline CSR unit.
// ENTRY: dut_trap 8
#include "priv.h"
#include "back-end/Exu/Csr.cpp"
static RobBroadcastIO bcast; static ExeCsrIO e2c; static CsrExeIO c2e; static RobCsrIO r2c; static CsrRobIO c2r; static CsrFrontIO c2f; static CsrStatusIO cst;
extern "C" void dut_trap(int k) {
  static Csr csr;
  csr.in = {&e2c, &r2c, &bcast, nullptr}; csr.out = {&c2e, &c2r, &c2f, &cst};
  priv::S s; priv::any(s);
  s.csr[priv::mie] = 0; priv::alias(s);
  for (int i = 0; i < 21; i++) csr.CSR_RegFile[i] = s.csr[i];
  csr.privilege = s.priv; csr.csr_we = false; v_in(csr.csr_idx, "idx"); v_in(csr.csr_wdata, "wdata"); v_in(csr.csr_wcmd, "wcmd");
  uint32_t pc = v_any<uint32_t>("pc"), tv = v_any<uint32_t>("trap_val"), to = 0;
  bcast.pc = pc; bcast.trap_val = tv; bcast.flush = true;
  priv::S t = s; const char *nm = "";
  switch (k) {
  case 0: nm = "ecall"; bcast.ecall = true; to = priv::exception(t, s.priv == 0 ? 8 : s.priv == 1 ? 9 : 11, 0, pc); break;
  case 1: nm = "fetch page fault"; bcast.page_fault_inst = true; to = priv::exception(t, 12, tv, pc); break;
  case 2: nm = "load page fault"; bcast.page_fault_load = true; to = priv::exception(t, 13, tv, pc); break;
  case 3: nm = "store page fault"; bcast.page_fault_store = true; to = priv::exception(t, 15, tv, pc); break;
  case 4: nm = "illegal instruction"; bcast.illegal_inst = true; to = priv::exception(t, 2, tv, pc); break;
  case 5: nm = "mret"; bcast.mret = true; to = priv::mret(t); break;
  case 6: nm = "sret"; bcast.sret = true; to = priv::sret(t); break;
  case 7: nm = "no trap"; break;
  }
  csr.comb_begin(); csr.comb_interrupt(); csr.comb_csr_status();
  v_is<uint32_t>(cst.privilege, s.priv, "status output: privilege");
  v_is<uint32_t>(cst.mstatus, s.csr[priv::mstatus], "status output: mstatus");
  v_is<uint32_t>(cst.sstatus, s.csr[priv::sstatus], "status output: sstatus");
  v_is<uint32_t>(cst.satp, s.csr[priv::satp], "status output: satp");
  csr.comb_exception(); csr.comb_csr_write(); csr.comb_interrupt_inject();
  csr.seq();
  for (int i = 0; i < 21; i++) v_is<uint32_t>(csr.CSR_RegFile[i], t.csr[i], v_rule(v_rule("after", nm), priv::name[i]));
  v_is<uint32_t>(csr.privilege, t.priv, v_rule("privilege after", nm));
  if (k < 5) v_is<uint32_t>(c2f.trap_pc, to, v_rule("handler address for", nm));
  else if (k < 7) v_is<uint32_t>(c2f.epc, to, v_rule("return address for", nm));
}
