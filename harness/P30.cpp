// ENTRY: slots 20
// ENTRY: probes 24
// ENTRY: settled 16
// ENTRY: reads 24
// ENTRY: walks 32
// ENTRY: everyone 48
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
#include "memsys.h"
using namespace ms;
// Translation reads, page-table walks and instruction-side probes share the last load port of the data cache with the
// load/store unit. Around the memory system as the repository wires it: five guests (the probe, two single-word readers,
// two walk clients) and the load and store ports, over lines whose contents are unknown words. Page-table entries are the
// only known words: entry 15 of every line maps a large page, entry 14 points at another line's page, entry 13 maps a
// small page, entry 12 is not valid.
enum { PROBE, READ_D, READ_I, WALK_D, WALK_I };
static int want[GUESTS], patience = 600; static uint32_t vaddr[GUESTS], leaf[GUESTS]; static int level[GUESTS]; static bool no_page[GUESTS]; static int flush_in, calm;
static PtwMemPort *mem_port(int g) { return g == READ_D ? m->dtlb_ptw_port : m->itlb_ptw_port; }
static PtwWalkPort *walk_port(int g) { return g == WALK_D ? m->dtlb_walk_port : m->itlb_walk_port; }
static void answered(Guest &g) { g.busy = g.sent = false; }
static void hear() {
  bool others = !idle(); for (int i = READ_D; i < GUESTS; i++) others = others || guest[i].busy; calm = others ? 0 : calm + 1;
  for (int i = 0; i < GUESTS; i++) { Guest &g = guest[i]; if (g.busy) { g.age++; V_REQUIRE(g.age < patience, "a request for a borrowed port is answered in the end"); } }
  Guest &p = guest[PROBE]; V_REQUIRE(ic_resp.resp_valid == p.sent, "a probe is answered once, in the next cycle, and only then");
  if (ic_resp.resp_valid) { if (!ic_resp.resp_miss) v_is<uint32_t>(ic_resp.resp_data, now[p.line][p.word], "a probe that hits returns the latest contents"); else v_is<uint32_t>(mem[p.line][p.word], now[p.line][p.word], calm > 60 ? "with no other access going on, a probe that misses means that memory has the latest contents" : "a probe that misses means that memory has the latest contents"); answered(p); }
  for (int i = READ_D; i <= READ_I; i++) {
    Guest &g = guest[i]; PtwMemPort *q = mem_port(i); bool v = q->resp_valid(); V_REQUIRE(!v || g.sent, "a read answer goes to the reader that asked");
    if (v && roll(3)) { v_is<uint32_t>(q->resp_data(), now[g.line][g.word], "a translation read returns the latest contents"); q->consume_resp(); answered(g); }
  }
  for (int i = WALK_D; i <= WALK_I; i++) {
    Guest &g = guest[i]; PtwWalkPort *q = walk_port(i); bool v = q->resp_valid(); V_REQUIRE(!v || g.sent, "a walk answer goes to the client that asked");
    if (v && roll(3)) { PtwWalkResp r = q->resp(); v_is<uint32_t>(r.vaddr, vaddr[i], "a walk answer is for the address asked"); v_is<uint8_t>(r.fault, no_page[i], "a walk fails exactly on an invalid entry"); if (!no_page[i]) { v_is<uint32_t>(r.leaf_pte, leaf[i], "a walk returns the entry in memory"); v_is<uint8_t>(r.leaf_level, level[i], "a walk reports the size of the page"); } q->consume_resp(); answered(g); }
  }
}
static uint32_t entry_of(int l, int w) { return ((where[l] & 0xfff) >> 2) + w; }
static void speak() {
  ic_req = {}; Guest &p = guest[PROBE];
  if (p.busy && !p.sent) { ic_req.req_valid = true; ic_req.req_addr = address(p.line, p.word); p.sent = true; }
  for (int i = READ_D; i <= READ_I; i++) { Guest &g = guest[i]; if (g.busy && !g.sent) g.sent = mem_port(i)->send_read_req(address(g.line, g.word)); }
  for (int i = WALK_D; i <= WALK_I; i++) {
    Guest &g = guest[i]; PtwWalkPort *q = walk_port(i);
    if (g.busy && g.sent && flush_in && roll(flush_in) == 0) { q->flush_client(); answered(g); continue; }
    if (g.busy && !g.sent) { PtwWalkReq r; r.vaddr = vaddr[i]; r.satp = 0x80000000u | where[g.line] >> 12; r.access_type = 1; g.sent = q->send_walk_req(r); }
  }
  for (int i = 0; i < GUESTS; i++) {
    Guest &g = guest[i]; if (!want[i] || g.busy || roll(want[i])) continue; int l = roll(lines), w = roll(word_count);
    if (i < WALK_D) { if (!free_word(l, w)) continue; g = {true, false, l, w, 0}; continue; }
    int form = roll(7), l2 = roll(lines); if (form > 5) { w = 12; no_page[i] = true; } else if (form > 2) { w = 15; leaf[i] = now[l][15]; level[i] = 1; no_page[i] = false; } else { w = 14; l2 = (l * 5 + 3) % lines; no_page[i] = form == 2; leaf[i] = now[l2][13]; level[i] = 0; }
    g = {true, false, l, w, 0, 0, l2, 0}; vaddr[i] = entry_of(l, w) << 22 | (w == 14 ? entry_of(l2, no_page[i] ? 12 : 13) : roll(1024)) << 12 | (roll(4096) & ~3u);
  }
}
static void begin(int n, uint32_t seed) {
  start(n, seed); guests_hear = hear; guests_speak = speak; word_count = 12; rd_slow = 12; wr_slow = 6;
  for (int l = 0; l < n; l++) { int l2 = (l * 5 + 3) % n; mem[l][15] = (uint32_t)(0x1000 + 8 * l) << 20 | 0xcf; mem[l][14] = where[l2] >> 12 << 10 | 1; mem[l][13] = (uint32_t)(0x12345 + 17 * l) << 10 | 0xdf; mem[l][12] = 0xdeadbee0u + 2 * l; for (int w = 12; w < 16; w++) now[l][w] = mem[l][w]; }
}
static void finish(int most) { for (int &x : want) x = 0; flush_in = 0; bool all = false; for (int i = 0; i < most && !all; i++) { cycle(); all = idle(); for (auto &g : guest) all = all && !g.busy; } V_REQUIRE(all, "a request for a borrowed port is answered in the end"); }
// ---- who gets the slot, and who hears the answer: the sharing logic by itself, every combination of requesters, what the
// previous cycle issued, and every kind of answer; addresses, data and identities unknown
static DcacheLsuIO d_resp, l_resp; static DCacheReqPorts l_req; static ICacheMemPortReq i_req; static ICacheMemPortResp i_resp; static PtwReq t_walk, t_dtlb, t_itlb; static LsuDcacheIO d_req; static PtwGrant grant; static PtwEvent event; static ReplayWakeup wake;
static const Owner ORDER[4] = {Owner::ICACHE, Owner::PTW_WALK, Owner::PTW_DTLB, Owner::PTW_ITLB};
static void ask(int who, int k) {
  i_req = {}; t_walk = t_dtlb = t_itlb = {}; l_req = {}; const char *n = v_name("addr", k); i_req.req_valid = who & 1; t_walk.valid = who >> 1 & 1; t_dtlb.valid = who >> 2 & 1; t_itlb.valid = who >> 3 & 1;
  i_req.req_addr = v_any<uint32_t>(v_name(n, 0)); t_walk.addr = v_any<uint32_t>(v_name(n, 1)); t_dtlb.addr = v_any<uint32_t>(v_name(n, 2)); t_itlb.addr = v_any<uint32_t>(v_name(n, 3));
  for (int p = 0; p < LD; p++) { auto &q = l_req.load_ports[p]; q.valid = v_any<uint8_t>(v_name(v_name("load_valid", k), p)) & 1; q.addr = v_any<uint32_t>(v_name(v_name("load_addr", k), p)); q.req_id = v_any<uint32_t>(v_name(v_name("load_id", k), p)) & 0x7fffffff; }
  for (int p = 0; p < ST; p++) { auto &q = l_req.store_ports[p]; q.valid = v_any<uint8_t>(v_name(v_name("store_valid", k), p)) & 1; q.addr = v_any<uint32_t>(v_name(v_name("store_addr", k), p)); q.data = v_any<uint32_t>(v_name(v_name("store_data", k), p)); q.strb = v_any<uint8_t>(v_name(v_name("store_strb", k), p)); q.req_id = v_any<uint32_t>(v_name(v_name("store_id", k), p)); }
}
static int winner(int who, int before) { for (int i = 0; i < 4; i++) if ((who >> i & 1) && i != before) return i; return -1; }
static uint32_t addr_of(int i) { return i == 0 ? i_req.req_addr : i == 1 ? t_walk.addr : i == 2 ? t_dtlb.addr : t_itlb.addr; }
extern "C" void slots(int part) {
  __v_noexit(1); int before = part % 5 - 1, kind = part / 5;
  for (int who = 0; who < 16; who++) for (int fill = 0; fill < 2; fill++) for (int waits = -1; waits < 4; waits++) {
    static MemRouteBlock r; r.in = {&d_resp, &l_req, &i_req, &t_walk, &t_dtlb, &t_itlb}; r.out = {&d_req, &l_resp, &i_resp, &grant, &event, &wake}; r.init(); int k = 0;
    bool waiting[4] = {};
    auto answer = [&](bool mine, int how, bool f, uint32_t id, int tag) { d_resp = {}; for (int p = 0; p < LD; p++) { auto &a = d_resp.resp_ports.load_resps[p]; a.valid = p == LD - 1 && mine ? 1 : v_any<uint8_t>(v_name(v_name("answer_valid", tag), p)) & 1; a.data = v_any<uint32_t>(v_name(v_name("answer_data", tag), p)); a.req_id = p == LD - 1 && mine ? id : v_any<uint32_t>(v_name(v_name("answer_id", tag), p)) & 0x7fffffff; a.replay = p == LD - 1 && mine ? (ReplayType)how : (ReplayType)(uint8_t)(v_any<uint8_t>(v_name(v_name("answer_kind", tag), p)) & 3); }
      for (int p = 0; p < ST; p++) { auto &a = d_resp.resp_ports.store_resps[p]; a.valid = v_any<uint8_t>(v_name(v_name("done_valid", tag), p)) & 1; a.req_id = v_any<uint32_t>(v_name(v_name("done_id", tag), p)); a.replay = (ReplayType)(uint8_t)(v_any<uint8_t>(v_name(v_name("done_kind", tag), p)) & 3); } d_resp.mshr_fill = f; d_resp.mshr_fill_addr = v_any<uint32_t>(v_name("fill_addr", tag)); };
    // one requester may already be waiting for a refill; then another one may have used the slot in the cycle before
    if (waits >= 0) { ask(1 << waits, 90); answer(false, 0, false, 0, 90); r.comb_response(); r.comb_request(); uint32_t id = d_req.req_ports.load_ports[LD - 1].req_id; r.seq(); ask(0, 91); answer(true, (int)ReplayType::MSHR_HIT, false, id, 91); r.comb_response(); r.comb_request(); r.seq(); waiting[waits] = waits > 0; }
    if (before >= 0) { ask(1 << before, 92); answer(false, 0, false, 0, 92); r.comb_response(); r.comb_request(); r.seq(); }
    else { ask(0, 92); answer(false, 0, false, 0, 92); r.comb_response(); r.comb_request(); r.seq(); }
    uint32_t before_id = d_req.req_ports.load_ports[LD - 1].req_id; ask(who, 93); answer(before >= 0, (int)ReplayType::HIT, false, before_id, 93); r.comb_response(); r.comb_request();
    int w = winner(who, before);
    for (int p = 0; p < LD - (w >= 0); p++) { auto &q = d_req.req_ports.load_ports[p]; auto &l = l_req.load_ports[p]; v_is<uint8_t>(q.valid, l.valid, "a load on a free port reaches the cache"); v_is<uint32_t>(q.addr, l.addr, "a load on a free port reaches the cache"); v_is<uint32_t>(q.req_id, l.req_id, "a load on a free port reaches the cache"); }
    for (int p = 0; p < ST; p++) { auto &q = d_req.req_ports.store_ports[p]; auto &l = l_req.store_ports[p]; v_is<uint8_t>(q.valid, l.valid, "a store reaches the cache"); v_is<uint32_t>(q.addr, l.addr, "a store reaches the cache"); v_is<uint32_t>(q.data, l.data, "a store reaches the cache"); v_is<uint8_t>(q.strb, l.strb, "a store reaches the cache"); v_is<uint32_t>(q.req_id, l.req_id, "a store reaches the cache"); }
    uint32_t id = d_req.req_ports.load_ports[LD - 1].req_id;
    if (w >= 0) { auto &q = d_req.req_ports.load_ports[LD - 1]; v_is<uint8_t>(q.valid, 1, "the first requester in order that did not go last gets the slot"); v_is<uint32_t>(q.addr, addr_of(w), "the first requester in order that did not go last gets the slot"); v_is<uint32_t>(id >> 31, 1, "a borrowed access can be told from a load"); V_REQUIRE(before < 0 || id != before_id, "borrowed accesses in a row can be told apart"); }
    v_is<bool>(d_req.icache_req == LD - 1, w == 0, "only a probe is marked as one"); v_is<uint8_t>(grant.valid, w > 0, "a translation request learns that it went out"); if (w > 0) { v_is<uint8_t>((uint8_t)grant.owner, (uint8_t)ORDER[w], "a translation request learns that it went out"); v_is<uint32_t>(grant.req_id, id, "a translation request learns that it went out"); }
    auto displaced = l_req.load_ports[LD - 1]; uint32_t asked = w >= 0 ? addr_of(w) : 0; r.seq();
    // the answer
    ask(0, 94); answer(w >= 0, kind, fill, id, 94); r.comb_response();
    for (int p = 0; p < LD; p++) { auto &o = l_resp.resp_ports.load_resps[p]; auto &a = d_resp.resp_ports.load_resps[p];
      if (p == LD - 1 && w >= 0) { v_is<uint8_t>(o.valid, displaced.valid, "a displaced load, and only that, is answered on the borrowed port"); if (displaced.valid) { v_is<uint32_t>(o.req_id, displaced.req_id, "a displaced load is told to retry"); v_is<uint8_t>((uint8_t)o.replay, (uint8_t)ReplayType::CONFLICT, "a displaced load is told to retry"); } }
      else { v_is<uint8_t>(o.valid, a.valid, "a load answer reaches its port unchanged"); v_is<uint32_t>(o.data, a.data, "a load answer reaches its port unchanged"); v_is<uint32_t>(o.req_id, a.req_id, "a load answer reaches its port unchanged"); v_is<uint8_t>((uint8_t)o.replay, (uint8_t)a.replay, "a load answer reaches its port unchanged"); } }
    for (int p = 0; p < ST; p++) { auto &o = l_resp.resp_ports.store_resps[p]; auto &a = d_resp.resp_ports.store_resps[p]; v_is<uint8_t>(o.valid, a.valid, "a store answer reaches its port unchanged"); v_is<uint32_t>(o.req_id, a.req_id, "a store answer reaches its port unchanged"); v_is<uint8_t>((uint8_t)o.replay, (uint8_t)a.replay, "a store answer reaches its port unchanged"); }
    v_is<uint8_t>(l_resp.mshr_fill, fill, "the core sees every refill"); v_is<uint32_t>(l_resp.mshr_fill_addr, d_resp.mshr_fill_addr, "the core sees every refill"); uint32_t got = d_resp.resp_ports.load_resps[LD - 1].data; bool hit = kind == (int)ReplayType::HIT, again = kind == (int)ReplayType::CONFLICT;
    v_is<uint8_t>(i_resp.resp_valid, w == 0, "a probe is answered once"); if (w == 0) { v_is<uint8_t>(i_resp.resp_miss, !hit, "a probe learns whether it hit"); if (hit) v_is<uint32_t>(i_resp.resp_data, got, "a probe that hits gets the data"); }
    v_is<uint8_t>(event.valid, w > 0 && hit, "a translation request gets its own data"); if (w > 0 && hit) { v_is<uint8_t>((uint8_t)event.owner, (uint8_t)ORDER[w], "a translation request gets its own data"); v_is<uint32_t>(event.data, got, "a translation request gets its own data"); v_is<uint32_t>(event.req_addr, asked, "a translation request gets its own data"); v_is<uint32_t>(event.req_id, id, "a translation request gets its own data"); }
    for (int i = 1; i < 4; i++) { bool told = i == 1 ? wake.walk : i == 2 ? wake.dtlb : wake.itlb, mine = w == i && !hit; v_is<bool>(told, (mine && (again || fill)) || (fill && waiting[i]), "a request that could not be served is woken to try again, at the refill or at once"); }
    // the refill after that wakes whoever still waits
    bool left[4]; for (int i = 0; i < 4; i++) left[i] = !fill && ((waiting[i]) || (w == i && i > 0 && !hit && !again)); r.comb_request(); r.seq(); ask(0, 95); answer(false, 0, true, 0, 95); r.comb_response();
    for (int i = 1; i < 4; i++) v_is<bool>(i == 1 ? wake.walk : i == 2 ? wake.dtlb : wake.itlb, left[i], "every waiting request is woken by the refill");
  }
}
extern "C" void probes(int part) { begin(part % 2 ? 10 : 4, 100 + part); want[PROBE] = 1 + part % 3; for (int i = 0; i < 150; i++) { burst(2 + part % 4); cycle(); } finish(1500); }
extern "C" void settled(int part) { begin(3 + part % 14, 150 + part); for (int round = 0; round < 4; round++) { want[PROBE] = 0; for (int i = 0; i < 40; i++) { burst(2 + part % 4); cycle(); } for (int i = 0; i < 400 && calm < 64; i++) cycle(); V_REQUIRE(calm >= 64, "the memory system comes to rest"); want[PROBE] = 1 + part % 2; for (int i = 0; i < 120; i++) cycle(); } finish(1500); }
extern "C" void reads(int part) { begin(part % 2 ? 14 : 5, 200 + part); want[READ_D] = 1 + part % 3; want[READ_I] = 1 + part % 2; fast_max = part % 4 == 3 ? 3 : 0; for (int i = 0; i < 150; i++) { if (part % 3) burst(3 + part % 4); cycle(); } finish(1500); }
extern "C" void walks(int part) { begin(part % 2 ? 14 : 6, 300 + part); want[PROBE] = part % 4 == 1 ? 2 : 0; want[WALK_D] = 1 + part % 3; want[WALK_I] = part % 5 == 0 ? 0 : 1 + part % 2; flush_in = part % 4 == 2 ? 9 : 0; fast_max = part % 4 == 3 ? 3 : 0; for (int i = 0; i < 180; i++) { if (part % 3) burst(3 + part % 4); cycle(); } finish(1500); }
extern "C" void everyone(int part) { begin(part % 2 ? 16 : 7, 400 + part); for (int i = 0; i < GUESTS; i++) want[i] = 1 + (part * 7 + i * 3) % 11; if (part % 6 == 5) want[part % 5] = 0; flush_in = part % 4 == 2 ? 14 : 0; fast_max = part % 4 == 3 ? 4 : 0; rd_slow = 6 + part % 20; for (int i = 0; i < 220; i++) { burst(3 + part % 5); cycle(); } finish(2500); }
