// P29: the write buffer alone, then under cache traffic.
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: queue 48
// ENTRY: pressure 24
#include "memsys.h"
using namespace ms;
struct Victim { uint32_t addr, data[WORDS]; };
extern "C" void queue(int part) {
  __v_noexit(1); static WriteBuffer w; static DcacheWBIO in; static WBDcacheIO out; static WbAxiIn ax; static WbAxiOut bus; w.in.dcache2wb = &in; w.in.axi_in = &ax; w.out.wb2dcache = &out; w.out.axi_out = &bus; w.init(); dice = part * 7919 + 77;
  static Victim q[DCACHE_WB_ENTRIES]; int n = 0, told = 0, left = 0; bool sent = false; uint32_t fresh = 1, marks = 0; bool slow = part & 1, masks = part & 2; int reuse = part % 3; static Victim onbus; bool offered = false; const int MAXN = DCACHE_WB_ENTRIES;
  for (int t = 0; t < 90; t++) {
    // memory side first, as the memory system evaluates it
    ax = {}; ax.req_ready = 1; if (told) { ax.req_accepted = 1; } else if (sent && left == 0) ax.resp_valid = 1; else if (sent) left--;
    w.comb_inputs_axi(); if (told) { sent = true; told = 0; } else if (ax.resp_valid) { for (int i = 1; i < n; i++) q[i - 1] = q[i]; n--; sent = false; }
    // requests latched by the cache in its previous cycle
    w.comb_outputs_dcache(); v_is<uint32_t>(out.free, MAXN - n, "free places are announced exactly");
    for (int i = 0; i < LSU_LDU_COUNT; i++) { int hit = -1; for (int k = 0; k < n; k++) if (in.bypass_req[i].valid && q[k].addr == (in.bypass_req[i].addr & ~63u)) hit = k; V_REQUIRE((bool)out.bypass_resp[i].valid == (hit >= 0), "a load finds a line exactly while it is buffered"); if (hit >= 0) v_is<uint32_t>(out.bypass_resp[i].data, q[hit].data[in.bypass_req[i].addr >> 2 & 15], "a load of a buffered line returns its newest word"); }
    for (int i = 0; i < LSU_STA_COUNT; i++) { auto &r = in.merge_req[i]; int hit = -1; for (int k = 0; k < n; k++) if (r.valid && q[k].addr == (r.addr & ~63u)) hit = k; bool fixed = hit == 0 && sent; V_REQUIRE((bool)out.merge_resp[i].busy == fixed, "a store is turned away only from the line being transferred"); V_REQUIRE((bool)out.merge_resp[i].valid == (hit >= 0 && !fixed), "a store is taken exactly by a buffered line not being transferred"); if (hit >= 0 && !fixed) q[hit].data[r.addr >> 2 & 15] = blend(q[hit].data[r.addr >> 2 & 15], r.data, r.strb); }
    // an eviction, and the lookups of the next cycle
    in.clear(); bool busy_buffer = n > 0 && roll(4); if (n < MAXN && (slow ? roll(4) : roll(3) == 0)) { uint32_t a = 0x80001000u + 64u * fresh++; bool again = reuse == 2 && n > 1 && roll(3) == 0; if (again) a = q[1 + roll(n - 1)].addr; in.dirty_info.valid = 1; in.dirty_info.addr = a; Victim v; v.addr = a; for (int k = 0; k < WORDS; k++) v.data[k] = in.dirty_info.data[k] = v_any<uint32_t>(v_name(v_name("line", fresh * 100 + t), k)); q[n] = v; n++; }
    for (int i = 0; i < LSU_LDU_COUNT; i++) { in.bypass_req[i].valid = roll(3) > 0; uint32_t a = busy_buffer ? q[roll(n)].addr : 0x80001000u + 64u * roll(fresh + 1); in.bypass_req[i].addr = a + 4 * roll(WORDS); }
    for (int i = 0; i < LSU_STA_COUNT; i++) { in.merge_req[i].valid = roll(3) > 0; uint32_t a = busy_buffer ? q[roll(n)].addr : 0x80001000u + 64u * roll(fresh + 1); in.merge_req[i].addr = a + 4 * roll(WORDS); marks++; in.merge_req[i].data = v_any<uint32_t>(v_name("store", marks)); in.merge_req[i].strb = masks ? v_any<uint32_t>(v_name("mask", marks)) & 15 : roll(16); }
    w.comb_inputs_dcache(); w.comb_outputs_axi();
    V_REQUIRE(bus.resp_ready, "the end of a transfer is taken when offered"); V_REQUIRE((bool)bus.req_valid == (n > 0 && !sent), "the oldest line is offered to memory unless one is under way");
    if (bus.req_valid) { v_is<uint32_t>(bus.req_addr, q[0].addr, "lines leave oldest first"); V_REQUIRE(bus.req_wstrb == ~0ull && bus.req_total_size == 63, "a whole line is written"); for (int k = 0; k < WORDS; k++) v_is<uint32_t>(bus.req_wdata[k], q[0].data[k], "a line leaves with every store merged into it"); if (roll(slow ? 4 : 2) == 0) { told = 1; left = roll(slow ? 12 : 3); } }
    w.seq();
  }
}
// the whole cache with a slow memory, so that evictions pile up
extern "C" void pressure(int part) {
  told_read = -1; told_write = 0; unknown_mask = part & 1; fast_max = part & 2 ? 5 : 0; rd_slow = 3; wr_slow = part % 3 ? 80 : 12; chase = 1 + part % 4; start(24, 700 + part);
  for (int c = 0; c < 150; c++) { burst(2); cycle(); }
  settle(900); for (int l = 0; l < lines; l++) for (int w = 0; w < WORDS; w += 3) { propose(0, l, w); settle(900); }
}
