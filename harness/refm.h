// The reference interpreter with its word memory abstracted: reads of the
// initial memory are an unknown function of the word address, writes are kept
// in a log. load_word/store_word themselves are the subject of P13.
#pragma once
#include "vh.h"
#include "isa.h"
#include "diff/ref.cpp"
#undef immI
#undef immU
#undef immS
#undef immJ
#undef immB
long long sim_time;
extern "C++" void push_oracle_timer(uint32_t) {}
namespace refm {
static uint32_t inst;       // word returned by the next fetch
static bool fetching;
static int nlog, nread;
static uint32_t laddr[4], ldata[4];
static uint32_t raddr[8];
inline uint32_t initial(uint32_t a) { return (uint32_t)__v_uf("mem", 32, a & ~3u); }
inline uint32_t peek(uint32_t a) {
  uint32_t v = initial(a);
  for (int i = 0; i < nlog; i++) if (((laddr[i] ^ a) & ~3u) == 0) v = ldata[i];
  return v;
}
static uint32_t load(const RefCpu *, uint32_t a) {
  if (fetching) { fetching = false; return inst; }
  return peek(a);
}
static void store(RefCpu *, uint32_t a, uint32_t d) {
  if (nlog < 4) { laddr[nlog] = a; ldata[nlog] = d; }
  nlog++;
}
inline void model() {
  __v_model("RefCpu::load_word", (void *)load);
  __v_model("RefCpu::store_word", (void *)store);
}
// an arbitrary machine-mode state without pending enabled interrupts
inline void any_state(RefCpu &c) {
  v_in(c.state.gpr, "gpr"); c.state.gpr[0] = 0;
  v_in(c.state.csr, "csr");
  v_in(c.state.pc, "pc");
  v_in(c.state.reserve_valid, "reserve_valid"); v_in(c.state.reserve_addr, "reserve_addr");
  c.state.store = v_any<bool>("old_store"); v_in(c.state.store_addr, "old_store_addr"); v_in(c.state.store_data, "old_store_data"); v_in(c.state.store_strb, "old_store_strb");
  v_in(c.privilege, "privilege"); V_ASSUME(c.privilege == 0 || c.privilege == 1 || c.privilege == 3);
  v_in(sim_time, "sim_time"); V_ASSUME(sim_time >= 0);
  v_in(g_ref_timer_offset, "timer_offset"); v_in(g_ref_timer_cmp, "timer_cmp");
  v_in(c.Instruction, "previous_inst");
  c.asy = v_any<bool>("old_asy");
  c.illegal_exception = v_any<bool>("old_illegal");
  c.page_fault_inst = v_any<bool>("old_pfi"); c.page_fault_load = v_any<bool>("old_pfl"); c.page_fault_store = v_any<bool>("old_pfs");
  c.M_software_interrupt = v_any<bool>("old_msi"); c.M_timer_interrupt = v_any<bool>("old_mti"); c.M_external_interrupt = v_any<bool>("old_mei");
  c.S_software_interrupt = v_any<bool>("old_ssi"); c.S_timer_interrupt = v_any<bool>("old_sti"); c.S_external_interrupt = v_any<bool>("old_sei");
  c.dut_pf_check_enable = false; c.ref_only = false; c.sim_end = false; c.uart_print = false;
  c.dut_expect_pf_inst = c.dut_expect_pf_load = c.dut_expect_pf_store = false;
  nlog = 0;
}
inline void no_interrupts(RefCpu &c) { c.state.csr[csr_mie] = 0; }
inline void no_translation(RefCpu &c) { c.state.csr[csr_satp] &= 0x7fffffffu; }
inline void step(RefCpu &c, uint32_t w) { inst = w; fetching = true; c.exec(); }
}
