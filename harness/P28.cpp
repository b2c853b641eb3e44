// P28: the miss registers alone, then under cache traffic.
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: registers 48
// ENTRY: misses 48
// ENTRY: last_register 32
#include "memsys.h"
using namespace ms;
struct Miss { bool busy, accepted, held, dirty; uint32_t addr, id; uint32_t data[WORDS], got[WORDS]; uint8_t strb[WORDS]; };
extern "C" void registers(int part) {
  __v_noexit(1); static MSHR h; static DcacheMSHRIO in; static MSHRDcacheIO out; static MshrAxiIn ax; static MshrAxiOut bus; h.in.dcache2mshr = &in; h.in.axi_in = &ax; h.out.mshr2dcache = &out; h.out.axi_out = &bus; h.init(); dice = part * 104729 + 5; const int N = DCACHE_MSHR_ENTRIES;
  static Miss q[DCACHE_MSHR_ENTRIES]; int told = -1; uint32_t marks = 0; bool masks = part & 1, lazy = part & 2; int pool = part % 4 == 3 ? 20 : 5 + part % 5; uint32_t where[24]; for (int l = 0; l < pool; l++) where[l] = ((0x2000u + (l / 3)) << (DCACHE_SET_BITS + DCACHE_OFFSET_BITS)) | (l % 3 * 16 + 5) << DCACHE_OFFSET_BITS;
  auto find = [&](uint32_t a) { for (int i = 0; i < N; i++) if (q[i].busy && q[i].addr == (a & ~63u)) return i; return -1; }; auto count = [&] { int c = 0; for (auto &e : q) c += e.busy; return c; };
  bool answering = false; int answer = -1; uint32_t answers = 0; static uint32_t line_now[WORDS];
  for (int t = 0; t < 100; t++) {
    ax = {}; ax.req_ready = 1; if (told >= 0) { ax.req_accepted = 1; ax.req_accepted_id = q[told].id; q[told].accepted = true; told = -1; }
    if (!answering && roll(lazy ? 5 : 2) == 0) { int k = roll(N); for (int i = 0; i < N; i++, k = (k + 1) % N) if (q[k].busy && q[k].accepted && !q[k].held && !(ax.req_accepted && q[k].id == ax.req_accepted_id)) { answering = true; answer = k; answers++; for (int w = 0; w < WORDS; w++) line_now[w] = v_any<uint32_t>(v_name(v_name("memory", answers), w)); break; } }
    bool holding = false; for (auto &e : q) holding |= e.busy && e.held; if (answering) { ax.resp_valid = 1; ax.resp_id = q[answer].id; for (int w = 0; w < WORDS; w++) ax.resp_data[w] = line_now[w]; }
    else if (roll(4) == 0) { ax.resp_valid = 1; uint32_t stray = roll(2) ? N + roll(100) : roll(N); bool known = false; for (auto &e : q) known |= e.busy && e.accepted && e.id == stray; ax.resp_id = known ? (uint32_t)N : stray; for (int w = 0; w < WORDS; w++) ax.resp_data[w] = 0xdead0000u + w; }
    h.comb_inputs_axi(); bool take = answering && !holding; if (take) { q[answer].held = true; for (int w = 0; w < WORDS; w++) q[answer].got[w] = line_now[w]; }
    h.comb_outputs_dcache(); v_is<uint32_t>(out.free, N - count(), "free registers are announced exactly");
    for (int i = 0; i < PORTS; i++) V_REQUIRE((bool)out.find_resp[i].valid == (in.find_req[i].valid && find(get_addr(in.find_req[i].set_idx, in.find_req[i].tag, 0)) >= 0), "an outstanding line is found exactly");
    int ready = -1; for (int i = 0; i < N; i++) if (q[i].busy && q[i].held) ready = i; V_REQUIRE((bool)out.fill_req.valid == (ready >= 0), "an answered line is handed to the cache until it is taken");
    if (ready >= 0) { auto &e = q[ready]; v_is<uint32_t>(out.fill_req.addr, e.addr, "a refill carries its own line address"); v_is<bool>(out.fill_req.dirty, e.dirty, "a refill with merged stores is dirty, another is not"); for (int w = 0; w < WORDS; w++) v_is<uint32_t>(out.fill_req.data[w], blend(e.got[w], e.data[w], e.strb[w]), "a refill is the fetched line with the merged stores"); }
    // the cache: take the refill or not, then requests
    uint32_t fill_id = out.fill_req.id; in.clear(); if (ready >= 0 && roll(lazy ? 4 : 2)) { in.fill_resp.done = 1; in.fill_resp.id = fill_id; q[ready].busy = false; q[ready].held = false; }
    else if (part % 7 == 6 && ready >= 0) { in.fill_resp.done = 1; in.fill_resp.id = (fill_id + 1) % N; }
    int left = out.free; for (int i = 0; i < PORTS; i++) {
      uint32_t a = where[roll(pool)]; if (roll(3)) { AddrFields f = decode(where[roll(pool)]); in.find_req[i].valid = 1; in.find_req[i].set_idx = f.set_idx; in.find_req[i].tag = f.tag; }
      if (roll(lazy ? 2 : 4)) continue; int k = find(a); if (k < 0 && left == 0) continue; bool st = i >= LD; auto &r = in.mshr_req[i]; r.valid = 1; int w = roll(2) ? 0 : roll(WORDS); r.addr = a + 4 * w; r.is_store = st; marks++; r.data = v_any<uint32_t>(v_name("store", marks)); r.strb = masks ? v_any<uint32_t>(v_name("mask", marks)) & 15 : 1 + roll(15);
      if (k < 0) { left--; for (k = 0; q[k].busy; k++) ; q[k] = {}; q[k].busy = true; q[k].addr = a; q[k].id = 0x1000; }
      if (st) { q[k].data[w] = blend(q[k].data[w], r.data, r.strb); q[k].strb[w] |= r.strb; q[k].dirty = true; }
    }
    h.comb_inputs_dcache(); h.comb_outputs_axi();
    bool waiting = false; for (auto &e : q) waiting |= e.busy && !e.accepted; V_REQUIRE((bool)bus.req_valid == waiting, "a line not yet asked for is offered to memory, others are not");
    if (bus.req_valid) { int k = find(bus.req_addr); V_REQUIRE(k >= 0 && !q[k].accepted && (bus.req_addr & 63) == 0, "each outstanding line is asked for once"); V_REQUIRE(bus.req_total_size == 63, "a whole line is asked for"); for (int i = 0; i < N; i++) V_REQUIRE(!(q[i].busy && q[i].accepted && q[i].id == bus.req_id), "requests in flight can be told apart"); if (roll(2)) { told = k; q[k].id = bus.req_id; } }
    bool hold_now = false; for (auto &e : q) hold_now |= e.busy && e.held; if (answering) { V_REQUIRE((bool)bus.resp_ready == take, "an answer is taken exactly when it was stored"); if (take) answering = false; } else if (!ax.resp_valid) V_REQUIRE((bool)bus.resp_ready == !hold_now, "an answer is welcome when there is room for it");
    h.seq();
  }
}
extern "C" void misses(int part) {
  told_read = -1; told_write = 0; unknown_mask = part & 1; fast_max = part & 2 ? (part & 4 ? 16 : 5) : 0; rd_slow = part & 2 ? (part & 4 ? 400 : 100) : part % 3 ? 40 : 4; wr_slow = 3; spread = part & 8; chase = 1 + part % 4; start(part & 8 ? 48 : 20, 900 + part);
  for (int c = 0; c < 130; c++) { burst(part & 8 ? 1 : 2); cycle(); }
  settle(900); rd_slow = 2;
  settle(900); for (int l = 0; l < lines; l++) for (int w = 0; w < WORDS; w += 5) { propose(0, l, w); settle(900); }
}
// one register left, and several accesses of one cycle want it; the line arrives before the next cycle or later
extern "C" void last_register(int part) {
  told_read = -1; told_write = 0; unknown_mask = part & 1; spread = true; fast_max = 0; wr_slow = 2; rd_slow = 3; start(48, part); int taken = DCACHE_MSHR_ENTRIES - 1 - (part >> 4); fixed_wait = 60; fixed_fast = 0;
  for (int l = 0; l < taken; l++) { propose(LD + l % ST, l, l); if (l % ST == ST - 1) { cycle(); cycle(); } } cycle(); cycle(); for (int i = 0; i < 30; i++) { bool all = true; for (int l = 0; l < taken; l++) { bool asked = false; for (auto &r : rd) asked |= r.busy && r.told && r.line == l; all &= asked; } if (all) break; cycle(); }
  fixed_wait = part >> 1 & 1; fixed_fast = part & 4 ? 12 : part & 8 ? 3 : 0; int x = 20; for (int p = 0; p < PORTS; p++) if (p != (part & 8 ? 0 : LD)) propose(p, x + (part & 8 && p == 1 ? 1 : 0), 2 * p + (part >> 2 & 1)); cycle(); cycle(); cycle(); fixed_fast = -1; settle(200); fixed_wait = -1; if (part & 1) for (int l = 40; l < 48; l++) { propose(0, l, 0); settle(300); }
  for (int l = 0; l < 24; l++) for (int w = 0; w < WORDS; w++) { propose(0, l, w); settle(300); }
}
