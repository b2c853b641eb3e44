// P45: what the core reports about a retired instruction, and what a retired store sets off.
// FLAGS: -I$VERIF/harness/stubaxi
// ENTRY: report 20
// ENTRY: choose 80
// ENTRY: store 20
#include "vh.h"
#include "rv_simu_mmu_v2.cpp"
alignas(64) static char machine[sizeof(SimCpu)], csr_unit[sizeof(Csr)], prf_unit[sizeof(Prf)], ren_unit[sizeof(Ren)], rob_unit[sizeof(Rob)], lsu_unit[sizeof(RealLsu)]; static RobBroadcastIO bcast; static SimCpu *cpu; static StqEntry held; static int asked_idx; static bool asked_flag, asked; CPU_state dut_cpu;
static StqEntry entry(RealLsu *, int idx, bool flag) { asked = true; asked_idx = idx; asked_flag = flag; return held; }
static int told; static uint32_t told_a, told_d; static uint8_t told_f; static void device(MemSubsystem *, uint32_t a, uint32_t d, uint8_t f) { told++; told_a = a; told_d = d; told_f = f; }
static int steps, syncs; static uint8_t sync_priv; static bool checked; void difftest_step(bool c) { steps++; checked = c; } void difftest_sync_from_dut(uint8_t p) { syncs++; sync_priv = p; }
static void boot() {
  __v_noexit(1); cpu = (SimCpu *)machine; auto &b = cpu->back; b.csr = (Csr *)csr_unit; b.prf = (Prf *)prf_unit; b.rename = (Ren *)ren_unit; b.rob = (Rob *)rob_unit; b.lsu = (RealLsu *)lsu_unit; b.rob->out.rob_bcast = &bcast; v_in(bcast, "bcast"); v_in(b.csr->CSR_RegFile_1, "csr"); v_in(b.csr_interrupt_inject_io, "irq"); v_in(held, "entry"); v_in(b.prf->reg_file_1, "value"); v_in(dut_cpu, "before");
  for (int i = 0; i < ARF_NUM; i++) b.rename->arch_RAT_1[i] = (i * 7 + 3) % PRF_NUM; __v_model("RealLsu::get_stq_entry", (void *)entry); __v_model("MemSubsystem::on_commit_store", (void *)device); asked = false; told = steps = syncs = 0;
}
static InstEntry retired(int part) { InstEntry e; v_in(e.uop, "inst"); e.valid = true; e.uop.type = (InstType)part; return e; }
static bool stores(InstInfo &u) { return u.tma.mem_commit_is_store && !u.page_fault_store; }
static bool dropped(InstInfo &u) { return held.suppress_write && held.rob_idx == u.rob_idx && held.rob_flag == u.rob_flag; }
extern "C" void report(int part) {
  boot(); InstEntry e = retired(part); auto &u = e.uop; auto &b = cpu->back; auto &irq = b.csr_interrupt_inject_io; bool sync = false; cpu->difftest_prepare(&e, &sync);
  for (int i = 0; i < ARF_NUM; i++) v_is<uint32_t>(dut_cpu.gpr[i], b.prf->reg_file_1[b.rename->arch_RAT_1[i]], "the reported registers are the architectural ones");
  uint32_t raw = u.dbg.instruction; bool sees = (raw & 0x7f) == 0x73 && (raw >> 20 == 0x344 || raw >> 20 == 0x144); uint32_t mip = b.csr->CSR_RegFile_1[csr_mip]; if (irq.external_irq_pending_valid) mip = (mip & ~0x800u) | (sees && irq.external_irq_pending ? 0x800u : 0); if (irq.timer_irq_pending_valid) mip = (mip & ~0x80u) | (sees && irq.timer_irq_pending ? 0x80u : 0);
  for (int i = 0; i < CSR_NUM; i++) v_is<uint32_t>(dut_cpu.csr[i], i == csr_mip ? mip : i == csr_sip ? mip & 0x333u : (uint32_t)b.csr->CSR_RegFile_1[i], "the reported control registers are those after the instruction");
  bool s = stores(u), ready = held.paddr_valid && held.data_valid, is = s && !dropped(u) && ready; v_is<bool>(dut_cpu.store, is, "a store is reported exactly when one reaches memory"); if (s) { V_REQUIRE(asked, "a store is reported from its own entry"); v_is<int>(asked_idx, (int)u.stq_idx, "a store is reported from its own entry"); v_is<bool>(asked_flag, u.stq_flag, "a store is reported from its own entry"); }
  if (is) { v_is<uint32_t>(dut_cpu.store_addr, held.paddr, "a store is reported as memory sees it"); uint32_t d = held.data; d = held.func3 == 0 ? d & 0xff : held.func3 == 1 ? d & 0xffff : d; v_is<uint32_t>(dut_cpu.store_data, d << 8 * (held.paddr & 3), "a store is reported as memory sees it"); }
  bool br = u.type == BR || u.type == JALR || u.type == JAL; v_is<uint32_t>(dut_cpu.pc, br || bcast.flush ? (uint32_t)u.diag_val : (uint32_t)u.dbg.pc + 4, "the reported successor is the actual one"); v_is<uint32_t>(dut_cpu.instruction, u.dbg.instruction, "the instruction is reported"); v_is<uint32_t>(dut_cpu.commit_pc, u.dbg.pc, "the instruction is reported"); v_is<bool>(dut_cpu.page_fault_inst, u.page_fault_inst, "faults are reported"); v_is<bool>(dut_cpu.page_fault_load, u.page_fault_load, "faults are reported"); v_is<bool>(dut_cpu.page_fault_store, u.page_fault_store, "faults are reported");
  bool mmio = u.dbg.is_mmio && (s || (u.tma.mem_commit_is_load && !u.page_fault_load)); bool may = mmio || (s && !dropped(u) && !ready) || (sees && (irq.external_irq_pending_valid || irq.timer_irq_pending_valid)) || bcast.interrupt || u.dbg.difftest_skip;
  v_is<bool>(sync, may, "the comparison is given up exactly where the reference cannot know the outcome");
}
extern "C" void choose(int part) {
  boot(); bool on = part & 1, dev = part & 2; InstEntry e = retired(part >> 2); auto &u = e.uop; u.dbg.is_mmio = dev; u.tma.mem_commit_is_load = dev; u.page_fault_load = false; u.tma.mem_commit_is_store = false; u.dbg.instruction = 0x33; bcast.interrupt = false; u.dbg.difftest_skip = false; cpu->back.csr->privilege_1 = v_any<uint8_t>("privilege") & 3; cpu->ctx.cpu = cpu; 
  cpu->ctx.enable_difftest = on; cpu->ctx.run_difftest_inst(&e); V_REQUIRE(steps == (on && !dev), "every retired instruction is compared unless the reference cannot know the outcome"); V_REQUIRE(syncs == (on && dev), "the reference follows the core where it cannot know the outcome"); if (on && !dev) V_REQUIRE(checked, "every retired instruction is compared unless the reference cannot know the outcome"); if (on && dev) v_is<uint8_t>(sync_priv, cpu->back.csr->privilege_1, "the reference follows the core where it cannot know the outcome");
}
extern "C" void store(int part) {
  boot(); InstEntry e = retired(part); auto &u = e.uop; v_in(cpu->ctx.perf, "perf"); v_in(cpu->back.ftq_commit_info, "record"); cpu->ctx.cpu = cpu; int slot = part % COMMIT_WIDTH; auto p = cpu->ctx.perf; bool taken = cpu->back.ftq_commit_info.resp[slot].pred_taken; cpu->ctx.run_commit_inst(&e, slot); auto &q = cpu->ctx.perf;
  bool is = stores(u) && !dropped(u) && held.paddr_valid && held.data_valid; v_is<int>(told, is, "devices see exactly the retired stores that reach memory"); if (is) { v_is<uint32_t>(told_a, held.paddr, "devices see the store as it is"); v_is<uint32_t>(told_d, held.data, "devices see the store as it is"); v_is<uint8_t>(told_f, held.func3, "devices see the store as it is"); }
  if (stores(u)) { v_is<int>(asked_idx, (int)u.stq_idx, "devices see the store of the retiring instruction"); v_is<bool>(asked_flag, u.stq_flag, "devices see the store of the retiring instruction"); }
  bool ret = u.type == JALR && u.is_ret, ind = u.type == JALR && !u.is_ret, br = u.type == BR, m = u.mispred; const char *C = "branches and mispredictions are counted by kind"; v_is<uint64_t>(q.ret_br_num, p.ret_br_num + ret, C); v_is<uint64_t>(q.jalr_br_num, p.jalr_br_num + ind, C); v_is<uint64_t>(q.cond_br_num, p.cond_br_num + br, C); v_is<uint64_t>(q.ret_mispred_num, p.ret_mispred_num + (ret && m), C); v_is<uint64_t>(q.jalr_mispred_num, p.jalr_mispred_num + (ind && m), C); v_is<uint64_t>(q.cond_mispred_num, p.cond_mispred_num + (br && m), C);
  v_is<uint64_t>(q.ret_dir_mispred, p.ret_dir_mispred + (ret && m && !taken), C); v_is<uint64_t>(q.ret_addr_mispred, p.ret_addr_mispred + (ret && m && taken), C); v_is<uint64_t>(q.jalr_dir_mispred, p.jalr_dir_mispred + (ind && m && !taken), C); v_is<uint64_t>(q.jalr_addr_mispred, p.jalr_addr_mispred + (ind && m && taken), C); v_is<uint64_t>(q.cond_dir_mispred, p.cond_dir_mispred + (br && m && taken != u.br_taken), C); v_is<uint64_t>(q.cond_addr_mispred, p.cond_addr_mispred + (br && m && taken == u.br_taken), C);
}
