// ENTRY: plain 12
// ENTRY: redirects 16
// ENTRY: invalidations 16
// ENTRY: crowded 12
// ENTRY: timed 32
// ENTRY: packed 8
// FLAGS: -I$VERIF/harness/stubic
#include "front-end/icache/icache.cpp"
#include "front-end/icache/ICacheTop.cpp"
#include "front-end/icache/icache_module.cpp"
#include "vh.h"
// The instruction cache as the front end steps it: ask whether it is ready, run one cycle, look at the answer. Around it a
// translation that may take a while or fail, a memory that accepts and answers when it likes (also both in one cycle), and
// a data cache that may hold newer contents of a line than memory does. Every word of every line is unknown; at an
// instruction-cache flush lines take new unknown contents.
static const int PAGES = 11, SETS = 3, WORDS = 16; static const uint32_t FAULT = 0xffffffff;
static uint32_t now[PAGES][SETS][WORDS], ram[PAGES][SETS][WORDS]; static bool held[PAGES][SETS]; static uint32_t frame_of[PAGES + 4]; static int pages, sets, version;
static uint32_t rng; static uint32_t roll(uint32_t n) { rng ^= rng << 13; rng ^= rng >> 17; rng ^= rng << 5; return (rng >> 8) % n; }
static const uint32_t SET_AT[SETS] = {0x040, 0xfc0, 0x7c0};
static uint32_t frame_number(int p) { return p ? 0x80000u + p * 0x111u : 0; }
static int page_of_frame(uint32_t f) { for (int p = 0; p < PAGES; p++) if (frame_number(p) == f) return p; return -1; }
static int set_of(uint32_t a) { for (int s = 0; s < SETS; s++) if ((a & 0xfc0) == SET_AT[s]) return s; return -1; }
static const uint32_t VPAGE[PAGES + 4] = {0x00010, 0x00011, 0x40010, 0xc0010, 0xc0011, 0x80010, 0x80011, 0x7ffff, 0xfffff, 0x12345, 0x00000, 0x54321, 0x0f0f0, 0xf0f0f, 0x33333};
static int vpage_of(uint32_t v) { for (int i = 0; i < PAGES + 4; i++) if (VPAGE[i] == v) return i; return -1; }
static void renew(int p, int s) { version++; bool h = held[p][s] = roll(3) == 0; for (int w = 0; w < WORDS; w++) { now[p][s][w] = v_any<uint32_t>(v_name(v_name("line", version), w)); ram[p][s][w] = h ? v_any<uint32_t>(v_name(v_name("old", version), w)) : now[p][s][w]; } }
// ---- the request being served
static bool asked; static uint32_t asked_pc; static int age, patience;
static icache_in in_; static icache_out out_; static CsrStatusIO csr; static SimContext *ctx_;
// ---- translation
static int xl_wait, xl_slow; static bool xl_fresh; static uint32_t pc_now; static bool ask_now;
TlbMmu::Result TlbMmu::translate(uint32_t &p_addr, uint32_t v_addr, uint32_t, CsrStatusIO *) {
  V_REQUIRE(ask_now && (pc_now >> 12) == (v_addr >> 12), "only the page of the request being served is translated");
  if (xl_fresh) { xl_fresh = false; xl_wait = roll(xl_slow); } if (xl_wait > 0) return Result::RETRY;
  int v = vpage_of(v_addr >> 12); uint32_t f = v < 0 ? FAULT : frame_of[v]; if (f == FAULT) return Result::FAULT; p_addr = f << 12; return Result::OK;
}
// ---- memory: up to 16 reads under way
struct Read { bool on, told; int id; uint32_t data[WORDS]; int wait; }; static Read rd[16]; static axi_interconnect::ReadMasterPort_t mem; static int ready_in, mem_slow; static bool late_accept; static int answering = -1; static bool fetched; static int pend = -1, pend_wait;
static void memory_speaks() {
  mem.req.accepted = false; mem.req.accepted_id = 0; mem.req.ready = roll(ready_in) == 0;
  if (pend >= 0) { if (pend_wait-- > 0) mem.req.ready = true; else { mem.req.accepted = true; mem.req.accepted_id = rd[pend].id; rd[pend].told = true; pend = -1; } }
  if (answering < 0) { int start = roll(16); for (int i = 0; i < 16 && answering < 0; i++) { Read &r = rd[(start + i) & 15]; if (r.on && r.told && r.wait-- <= 0) answering = (start + i) & 15; } }
  mem.resp.valid = answering >= 0; if (answering >= 0) { mem.resp.id = rd[answering].id; for (int w = 0; w < WORDS; w++) mem.resp.data[w] = rd[answering].data[w]; } else for (int w = 0; w < WORDS; w++) mem.resp.data[w] = v_any<uint32_t>(v_name("noise", w));
}
static void memory_listens() {
  if (answering >= 0 && mem.resp.ready) { rd[answering].on = false; answering = -1; }
  if (!mem.req.valid) return;
  int v = vpage_of(asked_pc >> 12); uint32_t line = v < 0 ? FAULT : frame_of[v] << 12 | (asked_pc & 0xfc0);
  V_REQUIRE(asked && v >= 0 && frame_of[v] != FAULT && mem.req.addr == line, "only the line being served is read from memory"); V_REQUIRE(mem.req.total_size == WORDS * 4 - 1, "a whole line is read");
  if (pend >= 0 || (!late_accept && !mem.req.ready) || (late_accept && roll(ready_in))) return;
  V_REQUIRE(!fetched, "a request reads its line once"); fetched = true; for (auto &r : rd) V_REQUIRE(!r.on || r.id != mem.req.id, "the name of a read still under way is not reused");
  int p = page_of_frame(mem.req.addr >> 12), s = set_of(mem.req.addr); if (p < 0 || s < 0) return; int k = 0; while (k < 16 && rd[k].on) k++; V_REQUIRE(k < 16, "at most sixteen reads are under way"); if (k == 16) return;
  Read &r = rd[k]; r.on = true; r.told = false; r.id = mem.req.id; r.wait = roll(mem_slow) ; for (int w = 0; w < WORDS; w++) r.data[w] = ram[p][s][w]; pend = k; pend_wait = late_accept ? 1 : 0;
}
// ---- lookups in the data cache: answered two cycles later
static ICacheMemPortReq pr_req; static ICacheMemPortResp pr_resp; static bool look; static uint32_t look_at; static int lie_in;
static void probe_step() {
  pr_resp = {}; if (look) { int p = page_of_frame(look_at >> 12), s = set_of(look_at); bool hit = p >= 0 && s >= 0 && (held[p][s] || (lie_in && roll(lie_in) == 0)); pr_resp.resp_valid = true; pr_resp.resp_miss = !hit; pr_resp.resp_data = hit ? now[p][s][(look_at & 63) >> 2] : v_any<uint32_t>("nothing"); }
  look = pr_req.req_valid; look_at = pr_req.req_addr;
  if (look) { int v = vpage_of(asked_pc >> 12); V_REQUIRE(ask_now && v >= 0 && frame_of[v] != FAULT && (look_at & ~63u) == (frame_of[v] << 12 | (asked_pc & 0xfc0)) && (look_at & 3) == 0, "only the line being served is looked up"); }
}
static int want_in; static uint32_t done;
static void cycle(bool redirect, bool fence, bool cancel, bool remap) {
  memory_speaks(); in_ = {}; in_.csr_status = &csr; in_.refetch = redirect; in_.fence_i = fence; in_.invalidate_req = cancel; in_.itlb_flush = remap; icache_peek_ready(&in_, &out_);
  bool can = out_.icache_read_ready; V_REQUIRE(!can || !asked, "one request is served at a time"); bool kill = redirect || fence || cancel; bool ask = can && !kill && roll(want_in) == 0; uint32_t pc = 0; static uint32_t last_pc;
  if (ask) { pc = roll(3) == 0 && last_pc ? (last_pc & ~63u) + (last_pc + 4 * roll(16)) % 64 : VPAGE[roll(pages)] << 12 | SET_AT[roll(sets)] | roll(16) << 2; last_pc = pc; in_.icache_read_valid = true; in_.fetch_address = pc; xl_fresh = true; }
  else in_.fetch_address = roll(4) ? VPAGE[roll(pages)] << 12 | SET_AT[roll(sets)] | roll(16) << 2 : roll(1 << 20) << 6; pc_now = ask ? pc : asked_pc; ask_now = ask || asked; if (xl_wait > 0) xl_wait--;
  icache_comb_calc(&in_, &out_);
  if (ask) { asked = true; asked_pc = pc; age = 0; fetched = false; }
  if (out_.icache_read_complete) {
    V_REQUIRE(asked && !kill, "an answer belongs to a request that was not cancelled"); v_is<uint32_t>(out_.fetch_pc, asked_pc, "an answer is for the address asked");
    int v = vpage_of(asked_pc >> 12), s = set_of(asked_pc), w0 = (asked_pc & 63) >> 2; uint32_t f = v < 0 ? FAULT : frame_of[v]; int p = page_of_frame(f);
    for (int i = 0; i < FETCH_WIDTH; i++) { bool in_line = w0 + i < WORDS; V_REQUIRE(out_.inst_valid[i] == in_line, "words past the end of the line are not delivered"); if (!in_line) continue; V_REQUIRE(out_.page_fault_inst[i] == (f == FAULT), "a page fault is reported exactly when the translation fails"); if (f == FAULT) v_is<uint32_t>(out_.fetch_group[i], INST_NOP, "a page fault carries no data"); else v_is<uint32_t>(out_.fetch_group[i], now[p][s][w0 + i], "an answer carries the words at the address asked"); }
    asked = false; done++;
  }
  if (kill) asked = false; if (asked) V_REQUIRE(++age < patience, "every request that is not cancelled is answered"); 
  memory_listens(); probe_step(); sim_time++;
}
// the packed form of the controller is compared with the direct one elsewhere; most runs take the direct one
static void direct(icache_module_n::ICache *c, bool data) { c->comb_core(data); }
static void unpacked() { __v_model("ICache::comb_via_compact_io_generator", (void *)direct); }
static void quiet() { for (int i = 0; i < 300; i++) { bool any = asked || look || pr_resp.resp_valid; for (auto &r : rd) any = any || r.on; if (!any) return; int w = want_in; want_in = 1 << 20; cycle(false, false, false, false); want_in = w; } V_REQUIRE(false, "every read is taken back in the end"); }
static void start(uint32_t seed, int n_pages, int n_sets, bool packed = false) {
  if (!packed) unpacked();
  rng = seed * 2654435761u | 1; pages = n_pages; sets = n_sets; want_in = 1; xl_slow = 1; ready_in = 1; mem_slow = 6; lie_in = 0; late_accept = false; patience = 400; ctx_ = (SimContext *)calloc(1, sizeof(SimContext)); icache_set_context(ctx_); icache_mem_read_port = &mem; icache_mem_req_port = &pr_req; icache_mem_resp_port = &pr_resp;
  for (int v = 0; v < PAGES + 4; v++) frame_of[v] = v % 5 == 4 ? FAULT : frame_number((v * 7) % PAGES); for (int p = 0; p < PAGES; p++) for (int s = 0; s < n_sets; s++) renew(p, s);
  in_ = {}; in_.reset = true; icache_comb_calc(&in_, &out_);
}
extern "C" void plain(int part) { start(100 + part, part % 3 ? 6 : 11, 1 + part % 3); xl_slow = 1 + part % 4; ready_in = 1 + part % 3; late_accept = part & 1; mem_slow = 1 + part % 7; want_in = 1 + part % 2; lie_in = part % 3 == 2 ? 2 : 0; for (int i = 0; i < 260; i++) cycle(false, false, false, false); quiet(); V_REQUIRE(done > 3, "requests are answered"); }
extern "C" void redirects(int part) { start(200 + part, 6 + part % 6, 1 + part % 3); xl_slow = 1 + part % 5; ready_in = 1 + part % 3; late_accept = part & 1; mem_slow = part % 4 == 3 ? 30 : 1 + part % 7; int k = 3 + part % 11; for (int i = 0; i < 300; i++) { bool hit = roll(k) == 0; cycle(hit, false, roll(4 * k) == 0, false); } quiet(); for (int i = 0; i < 150; i++) cycle(false, false, false, false); quiet(); }
extern "C" void invalidations(int part) { start(300 + part, 4 + part % 8, 1 + part % 3); xl_slow = 1 + part % 5; ready_in = 1 + part % 3; late_accept = part & 1; mem_slow = part % 4 == 3 ? 30 : 1 + part % 7; int k = 12 + 3 * (part % 7); for (int i = 0; i < 300; i++) { bool fence = roll(k) == 0, map = roll(2 * k) == 0, hit = map || (fence && part % 3) || roll(k) == 0; if (fence) for (int p = 0; p < PAGES; p++) for (int s = 0; s < sets; s++) if (roll(2)) renew(p, s); cycle(hit, fence, false, map); if (map) for (int v = 0; v < PAGES + 4; v++) if (roll(2)) frame_of[v] = roll(5) == 0 ? FAULT : frame_number(roll(PAGES)); } quiet(); }
extern "C" void crowded(int part) { start(400 + part, 11, 1); late_accept = part & 1; mem_slow = 60 + 20 * (part % 3); ready_in = 1; for (int i = 0; i < 360; i++) cycle(roll(5 + part) == 0, false, false, false); quiet(); for (int i = 0; i < 60; i++) cycle(false, false, false, false); quiet(); }
// every request is cancelled a fixed number of cycles after it was made, over and over; afterwards requests are served
extern "C" void timed(int part) { start(500 + part, 11, 1); late_accept = part & 1; mem_slow = part & 2 ? 3 : 1; ready_in = 1; int after = part / 4; for (int i = 0, n = 0; n < 22 && i < 300; i++) { bool cut = asked && age >= after; cycle(cut, cut && part % 8 == 7, false, false); n += cut; } quiet(); for (int i = 0; i < 100; i++) cycle(false, false, false, false); quiet(); }
// the same cache with the controller stepped through its packed interface
extern "C" void packed(int part) { start(600 + part, 5, 2, true); xl_slow = 1 + part % 3; late_accept = part & 1; mem_slow = 1 + part % 4; for (int i = 0; i < 70; i++) cycle(roll(12) == 0, part % 4 == 3 && roll(20) == 0, false, false); quiet(); }
