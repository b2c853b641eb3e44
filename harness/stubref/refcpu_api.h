// Stands in for the reference model's interface, which lives outside the repository: what the comparison exchanges with it.
#pragma once
#include <cstddef>
#include <cstdint>
struct RefCpuContext { int x; };
struct RefCpuState { uint32_t gpr[32], csr[21], pc, store_addr, store_data, store_strb; bool store; uint32_t instruction; bool page_fault_inst, page_fault_load, page_fault_store; uint32_t inst_idx, commit_pc; bool reserve_valid; uint32_t reserve_addr; uint8_t privilege; };
struct RefCpuStepInfo { uint32_t instruction; bool page_fault_inst, page_fault_load, page_fault_store, sim_end; };
RefCpuContext *refcpu_init(uint32_t, uint32_t); void refcpu_destroy(RefCpuContext *); void refcpu_get_state(RefCpuContext *, RefCpuState *); void refcpu_set_state(RefCpuContext *, const RefCpuState *); void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *);
void refcpu_set_dut_expected_faults(RefCpuContext *, bool, bool, bool); void refcpu_set_sim_time(RefCpuContext *, uint64_t); void refcpu_step(RefCpuContext *, uint32_t); void refcpu_clear_io_words(RefCpuContext *); void refcpu_set_io_word(RefCpuContext *, uint32_t, uint32_t); uint32_t refcpu_get_io_word(RefCpuContext *, uint32_t); uint32_t refcpu_load_word(RefCpuContext *, uint32_t); void refcpu_set_device_effects(RefCpuContext *, bool); void refcpu_set_uart_print(RefCpuContext *, bool); void refcpu_set_ref_only(RefCpuContext *, bool);
void refcpu_sync_ram_from_dut(RefCpuContext *, const uint32_t *, size_t); void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t, const uint8_t *, size_t); uint32_t *refcpu_get_ram_ptr(RefCpuContext *); bool refcpu_probe_pc_translation(RefCpuContext *);
