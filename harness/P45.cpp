// P45: the comparison itself. The reference is a machine in an arbitrary state; whatever it reports is compared with what the core reported.
// FLAGS: -I$VERIF/harness/stubref
// ENTRY: differ 6
// ENTRY: agree 6
// ENTRY: adopt 2
#include "vh.h"
#include "diff/diff.cpp"
static RefCpuContext ctx; static RefCpuState ref, set; static RefCpuStepInfo info; static int steps, sets, faults, created; static bool fi, fl, fs;
RefCpuContext *refcpu_init(uint32_t, uint32_t) { created++; return &ctx; } void refcpu_destroy(RefCpuContext *) {} void refcpu_get_state(RefCpuContext *, RefCpuState *s) { *s = ref; } void refcpu_set_state(RefCpuContext *, const RefCpuState *s) { sets++; set = *s; } void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *s) { *s = info; }
void refcpu_set_dut_expected_faults(RefCpuContext *, bool i, bool l, bool s) { faults++; fi = i; fl = l; fs = s; V_REQUIRE(!steps, "the reference is told of the faults before it steps"); } void refcpu_set_sim_time(RefCpuContext *, uint64_t) {} void refcpu_step(RefCpuContext *, uint32_t n) { steps += n; } uint32_t refcpu_load_word(RefCpuContext *, uint32_t) { return 0; }
static void faults_told() { V_REQUIRE(faults == 1, "the reference is told of the faults"); v_is<bool>(fi, dut_cpu.page_fault_inst, "the reference is told of the faults"); v_is<bool>(fl, dut_cpu.page_fault_load, "the reference is told of the faults"); v_is<bool>(fs, dut_cpu.page_fault_store, "the reference is told of the faults"); }
// instructions that read the pending interrupts see them in full; all others are compared without the two levels devices drive
static const uint32_t kinds[6] = {0x344025f3, 0x144025f3, 0x00c58533, 0x30002573, 0x00b52023, 0x34400013};
static bool sees(int part) { return part < 2; }
static uint32_t low(int part, uint32_t v) { return sees(part) ? v : v & ~0x880u; }
static void boot(int part) { ref_cpu_ctx = &ctx; steps = sets = faults = created = 0; v_in(ref, "ref"); v_in(dut_cpu, "core"); v_in(info, "step"); info.instruction = kinds[part]; }
extern "C" void differ(int part) {
  boot(part); difftest_step(true); const char *R = "no difference goes unnoticed"; V_REQUIRE(steps == 1, "the reference does one instruction for each one retired"); faults_told();
  v_is<uint32_t>(dut_cpu.pc, ref.pc, R); if (!info.page_fault_inst) v_is<uint32_t>(dut_cpu.instruction, info.instruction, R); v_is<bool>(dut_cpu.page_fault_inst, info.page_fault_inst, R); v_is<bool>(dut_cpu.page_fault_load, info.page_fault_load, R); v_is<bool>(dut_cpu.page_fault_store, info.page_fault_store, R);
  for (int i = 0; i < 32; i++) v_is<uint32_t>(dut_cpu.gpr[i], ref.gpr[i], v_rule(R, "register"));
  for (int i = 0; i < CSR_NUM; i++) { if (i == csr_mip) v_is<uint32_t>(low(part, dut_cpu.csr[i]), low(part, ref.csr[i]), v_rule(R, "pending interrupts")); else if (i == csr_sip && !sees(part)) continue; else v_is<uint32_t>(dut_cpu.csr[i], ref.csr[i], v_rule(R, "control register")); }
  if (ref.store) { V_REQUIRE(dut_cpu.store, v_rule(R, "store")); v_is<uint32_t>(dut_cpu.store_addr, ref.store_addr, v_rule(R, "store")); v_is<uint32_t>(dut_cpu.store_data, ref.store_data, v_rule(R, "store")); }
}
extern "C" void agree(int part) {
  __v_noexit(1); boot(part); for (int i = 0; i < 32; i++) dut_cpu.gpr[i] = ref.gpr[i]; for (int i = 0; i < CSR_NUM; i++) dut_cpu.csr[i] = ref.csr[i]; dut_cpu.pc = ref.pc; dut_cpu.page_fault_inst = info.page_fault_inst; dut_cpu.page_fault_load = info.page_fault_load; dut_cpu.page_fault_store = info.page_fault_store; if (!info.page_fault_inst) dut_cpu.instruction = info.instruction;
  if (!sees(part)) { dut_cpu.csr[csr_mip] = (ref.csr[csr_mip] & ~0x880u) | (v_any<uint32_t>("level") & 0x880u); dut_cpu.csr[csr_sip] = v_any<uint32_t>("sip"); } if (ref.store) { dut_cpu.store = true; dut_cpu.store_addr = ref.store_addr; dut_cpu.store_data = ref.store_data; }
  difftest_step(true); V_REQUIRE(steps == 1, "agreement does not stop the simulation");
}
extern "C" void adopt(int part) {
  __v_noexit(1); boot(2); if (part) ref_cpu_ctx = nullptr; uint8_t priv = v_any<uint8_t>("privilege"); difftest_sync_from_dut(priv); const char *R = "the reference takes over the core's state"; V_REQUIRE(sets == 1 && steps == 0, R); faults_told(); V_REQUIRE(created == part, R);
  for (int i = 0; i < 32; i++) v_is<uint32_t>(set.gpr[i], dut_cpu.gpr[i], R); for (int i = 0; i < 21; i++) v_is<uint32_t>(set.csr[i], dut_cpu.csr[i], R); v_is<uint32_t>(set.pc, dut_cpu.pc, R); v_is<uint8_t>(set.privilege, priv, R); v_is<bool>(set.reserve_valid, dut_cpu.reserve_valid, R); v_is<uint32_t>(set.reserve_addr, dut_cpu.reserve_addr, R); v_is<bool>(set.store, dut_cpu.store, R); v_is<uint32_t>(set.store_addr, dut_cpu.store_addr, R); v_is<uint32_t>(set.store_data, dut_cpu.store_data, R); v_is<uint32_t>(set.store_strb, dut_cpu.store_strb, R); v_is<uint32_t>(set.instruction, dut_cpu.instruction, R); v_is<bool>(set.page_fault_inst, dut_cpu.page_fault_inst, R); v_is<bool>(set.page_fault_load, dut_cpu.page_fault_load, R); v_is<bool>(set.page_fault_store, dut_cpu.page_fault_store, R); v_is<uint32_t>(set.commit_pc, dut_cpu.commit_pc, R);
}
