// The data-cache side of the memory system (cache, miss registers, write buffer and their wiring as the repository
// connects them), clients and main memory around it. Which line is accessed when, and how long memory takes, is
// scripted; every data word and byte mask is unknown.
#pragma once
#include "vh.h"
namespace axi_interconnect { struct AXI_LLC_LookupIn_t {}; struct AXI_LLC_TableOut_t {}; struct AXI_LLCPerfCounters_t {}; struct AXI_LLCConfig {}; struct ReadMasterPort_t {}; }
#include "MemSubsystem.h"
#include "MemSubSystem/DcacheConfig.cpp"
#include "MemSubSystem/MSHR.cpp"
#include "MemSubSystem/WriteBuffer.cpp"
#include "MemSubSystem/RealDcache.cpp"
#include "MemSubSystem/MemRouteBlock.cpp"
#include "MemSubSystem/PeripheralAxi.cpp"
#include "MemSubSystem/PtwWalker.cpp"
#include "MemSubSystem/MemSubsystem.cpp"
namespace ms {
enum { LINES = 48, WORDS = DCACHE_WORD_NUM, LD = LSU_LDU_COUNT, ST = LSU_STA_COUNT, PORTS = LD + ST };
struct Access { bool busy, sent; int line, word, wait; uint32_t data, id; uint8_t strb; };
struct Read { bool busy, told; int line, wait; uint32_t id; };
struct Write { bool busy, told; int line, wait; uint32_t data[WORDS]; };
static uint32_t mem[LINES][WORDS], now[LINES][WORDS], where[LINES], serial, dice; static int lines, done, ticks; static bool unknown_mask, spread; static int chase, chase_line, chase_word;
static Access port[PORTS]; static Read rd[8]; static Write wr; static int told_read, told_write, rd_slow, wr_slow, fast_max, fixed_wait = -1, fixed_fast = -1;
static LsuDcacheIO req; static DcacheLsuIO resp; static ICacheMemPortReq ic_req; static ICacheMemPortResp ic_resp; static PeripheralReqIO p_req; static PeripheralRespIO p_resp; static CsrInterruptInjectIO irq; static uint32_t ram_word;
alignas(64) static char space[sizeof(MemSubsystem)]; static MemSubsystem *m;
inline uint32_t roll(uint32_t n) { dice ^= dice << 13; dice ^= dice >> 17; dice ^= dice << 5; return (dice >> 3) % n; }
inline uint32_t address(int l, int w) { return where[l] + 4u * w; }
inline int line_of(uint32_t a) { for (int i = 0; i < lines; i++) if (where[i] == (a & ~63u)) return i; return -1; }
inline uint32_t blend(uint32_t old, uint32_t d, uint8_t s) { uint32_t r = 0; for (int b = 0; b < 4; b++) r |= ((s >> b & 1 ? d : old) & 0xffu << 8 * b); return r; }
inline void start(int n_lines, uint32_t seed) {
  __v_noexit(1); lines = n_lines; dice = seed * 2654435761u + 12345; serial = 0; done = 0; chase_line = -1; ticks = 0; m = new (space) MemSubsystem(nullptr);
  m->lsu2dcache = &req; m->dcache2lsu = &resp; m->icache_req = &ic_req; m->icache_resp = &ic_resp; m->peripheral_req = &p_req; m->peripheral_resp = &p_resp; m->csr_interrupt_inject = &irq; m->memory = &ram_word; init_dcache(); m->init();
  // most lines compete for the same place in the cache; every fourth one lies elsewhere, in the same or another bank
  for (int l = 0; l < lines; l++) { uint32_t set = spread ? (l < 40 ? l : 20) * 5 % 37 : l % 4 == 3 ? (l % 8 == 3 ? 21 : 6) : 5; where[l] = ((0x2000u + 3 * l) << (DCACHE_SET_BITS + DCACHE_OFFSET_BITS)) | set << DCACHE_OFFSET_BITS; for (int w = 0; w < WORDS; w++) mem[l][w] = now[l][w] = v_any<uint32_t>(v_name(v_name("memory", l), w)); }
}
// ---- main memory
inline void memory_speaks() {
  auto &r = m->mshr_axi_in; auto &w = m->wb_axi_in; r = {}; w = {}; r.req_ready = 1; w.req_ready = 1;
  if (told_read >= 0) { r.req_accepted = 1; r.req_accepted_id = rd[told_read].id; rd[told_read].told = true; told_read = -1; }
  else { int pick = -1; for (int i = 0; i < 8; i++) { int k = (i + ticks) % 8; if (rd[k].busy && rd[k].told && rd[k].wait == 0) { pick = k; break; } }
    if (pick >= 0) { r.resp_valid = 1; r.resp_id = rd[pick].id; for (int i = 0; i < WORDS; i++) r.resp_data[i] = mem[rd[pick].line][i]; } }
  if (told_write) { w.req_accepted = 1; told_write = 0; wr.told = true; }
  else if (wr.busy && wr.told && wr.wait == 0) { w.resp_valid = 1; for (int i = 0; i < WORDS; i++) mem[wr.line][i] = wr.data[i]; wr.busy = false; }
}
inline void memory_listens() {
  auto &r = m->mshr_axi_out; auto &w = m->wb_axi_out; for (auto &x : rd) if (x.busy && x.told && x.wait > 0) x.wait--; if (wr.busy && wr.told && wr.wait > 0) wr.wait--;
  if (m->mshr_axi_in.resp_valid && r.resp_ready) for (auto &x : rd) if (x.busy && x.id == m->mshr_axi_in.resp_id) x.busy = false;
  if (r.req_valid) {
    int l = line_of(r.req_addr); V_REQUIRE(l >= 0 && (r.req_addr & 63) == 0, "only lines asked for are fetched"); V_REQUIRE(r.req_total_size == 63, "a fetch is for a whole line"); int fresh = -1; for (int i = 0; i < 8; i++) { if (!rd[i].busy) fresh = i; else { V_REQUIRE(rd[i].id != r.req_id, "fetches in flight can be told apart"); V_REQUIRE(rd[i].line != l, "a line is fetched once at a time"); } }
    V_REQUIRE(fresh >= 0, "fetches in flight stay within their registers"); V_REQUIRE(!(wr.busy && wr.line == l), "a line is not fetched before its write-back is finished");
    if (roll(3)) { rd[fresh] = {true, false, l, fixed_wait >= 0 ? fixed_wait : (int)(roll(3) ? roll(rd_slow) : roll(2)), r.req_id}; told_read = fresh; }
  }
  V_REQUIRE(w.resp_ready, "the end of a write-back is taken when offered");
  if (w.req_valid) {
    int l = line_of(w.req_addr); V_REQUIRE(l >= 0 && (w.req_addr & 63) == 0, "only lines of the cache are written back"); V_REQUIRE(w.req_total_size == 63 && w.req_wstrb == ~0ull, "a write-back covers the whole line"); V_REQUIRE(!wr.busy, "one write-back at a time"); for (auto &x : rd) V_REQUIRE(!(x.busy && x.line == l), "a line is not written back while it is fetched");
    if (roll(3)) { wr.busy = true; wr.told = false; wr.line = l; wr.wait = roll(wr_slow); for (int i = 0; i < WORDS; i++) wr.data[i] = w.req_wdata[i]; told_write = 1; }
  }
}
// ---- the load/store unit
inline void client_hears() {
  for (int p = 0; p < PORTS; p++) {
    Access &a = port[p]; bool st = p >= LD; auto &L = resp.resp_ports.load_resps[st ? 0 : p]; auto &S = resp.resp_ports.store_resps[st ? p - LD : 0]; bool valid = st ? S.valid : L.valid; V_REQUIRE(valid == (a.busy && a.sent), "each access is answered once, on its own port"); if (!valid) continue;
    v_is<uint32_t>(st ? S.req_id : L.req_id, a.id, "an answer names the access it answers"); a.sent = false; ReplayType how = st ? S.replay : L.replay; if (how != ReplayType::HIT) { a.wait = how == ReplayType::CONFLICT ? 0 : roll(4); continue; }
    if (st) now[a.line][a.word] = blend(now[a.line][a.word], a.data, a.strb); else v_is<uint32_t>(L.data, now[a.line][a.word], "a load returns the latest stores over the memory contents"); a.busy = false; done++; if (st && chase) { chase_line = a.line; chase_word = a.word; }
  }
}
// other readers of the same memory: a word one of them is reading is not stored to meanwhile
struct Guest { bool busy, sent; int line, word, age, kind, line2, word2; };
enum { GUESTS = 5 }; static Guest guest[GUESTS]; static int word_count = WORDS;
inline bool free_word(int l, int w) { for (auto &g : guest) if (g.busy && g.line == l && g.word == w) return false; for (auto &a : port) if (a.busy && a.line == l && a.word == w) return false; return true; }
inline void propose(int p, int l, int w) { Access &a = port[p]; if (a.busy || !free_word(l, w)) return; serial++; a = {true, false, l, w, 0, v_any<uint32_t>(v_name("store_data", serial)), serial & 0xffff, 0}; a.strb = unknown_mask ? v_any<uint32_t>(v_name("store_mask", serial)) & 15 : 1 + roll(15); }
// a load of what was just stored follows at once, or after a few cycles
inline void client_speaks() {
  if (chase && chase_line >= 0 && roll(chase) == 0) { for (int p = 0; p < LD; p++) propose(p, chase_line, chase_word); chase_line = -1; }
  for (int p = 0; p < PORTS; p++) {
    Access &a = port[p]; bool st = p >= LD; bool go = a.busy && !a.sent && a.wait == 0; if (a.busy && a.wait > 0) a.wait--; if (go) a.sent = true;
    if (st) { auto &q = req.req_ports.store_ports[p - LD]; q = {}; q.valid = go; if (go) { q.addr = address(a.line, a.word); q.data = a.data; q.strb = a.strb; q.req_id = a.id; } }
    else { auto &q = req.req_ports.load_ports[p]; q = {}; q.valid = go; if (go) { q.addr = address(a.line, a.word); q.req_id = a.id; } }
  }
}
static void (*guests_hear)(), (*guests_speak)();
inline void cycle() {
  ticks++; memory_speaks(); m->comb_outputs(); if (guests_hear) guests_hear(); client_hears(); client_speaks(); if (guests_speak) guests_speak(); m->comb_inputs(); memory_listens(); m->seq();
  for (int k = fixed_fast >= 0 ? fixed_fast : fast_max ? roll(fast_max) : 0; k > 0; k--) { ticks++; memory_speaks(); m->dcache_fast_comb(false); memory_listens(); m->dcache_fast_seq(false); }
}
// random accesses on all ports; neighbours often touch the same line
inline void burst(int chance) { int last = roll(lines); for (int p = 0; p < PORTS; p++) if (roll(chance) == 0) { last = roll(2) ? (int)roll(lines) : last; propose(p, last, roll(2) ? 0 : roll(word_count)); } }
inline bool idle() { for (auto &a : port) if (a.busy) return false; return true; }
inline void settle(int most) { for (int i = 0; i < most && !idle(); i++) cycle(); V_REQUIRE(idle(), "every access is eventually performed"); }
}
