// P09: permission logic of the TLB and of its packaged kernel.
// ENTRY: tlb_core 12
#include "vh.h"
#include "sv32.h"
#include "back-end/Lsu/TlbMmu.cpp"
#include "MemSubSystem/PtwWalker.cpp"
#include "tlbm.h"
long long sim_time;
extern "C" void tlb_core(int part) {
  int type = part % 3, impl = part / 3 % 2, wk = part / 6;
  TlbMmu::CoreInput in; tlbm::any_core(in, type);
  if (wk) { in.walk.active = true; in.walk.req_sent = true; in.walk_resp_valid = true; in.walk.v_addr = (in.walk.v_addr & 0xfff) | (in.v_addr & ~0xfffu); in.walk.satp = in.satp; in.walk_resp.vaddr = (uint32_t)in.v_addr & ~0xfffu; in.lookup.hit = false; in.refill.valid = false; }
  tlbm::Want w = tlbm::want(in);
  TlbMmu::CoreOutput out = impl ? run_core_lane_via_io_generator(in, DTLB_ENTRIES) : TlbMmu::core_comb(in);
  const char *who = impl ? "packaged TLB kernel" : "TLB";
  V_REQUIRE(out.resp_valid == in.translate_valid, v_rule("every valid request is answered", who));
  if (in.translate_valid) {
    v_is<uint32_t>((uint32_t)out.result, w.result, v_rule("access granted, refused or deferred as the entry prescribes", who));
    if (w.result == 0) v_is<uint32_t>((uint32_t)out.p_addr, w.pa, v_rule("physical address", who));
  }
}
