// The load/store queues driven by a scripted core (dispatch, address and data issue, retirement, squashes), with
// scripted translation, cache and device answers. Data are unknown; which access happens when is scripted.
#pragma once
#include "vh.h"
#include "back-end/Lsu/RealLsu.cpp"
#include "back-end/Lsu/RealLsuPerf.cpp"
#include "MemSubSystem/DcacheConfig.cpp"
long long sim_time = 0;
namespace lq {
enum Kind { LD, ST, LR, SC, AMO, BR };
enum { WORDS = 6, MAXOPS = 400, LDP = LSU_LDU_COUNT, STP = LSU_STA_COUNT };
struct Op {
  Kind kind; uint32_t va, pa; int f3, word; bool fault, mmio; uint32_t data; int tag; mask_t mask, under; int stq, ldq; bool stq_flag; uint32_t snap; bool snap_flag;
  int agu_at, std_at, resolve_at; bool wrong; bool agu_sent, std_sent, ld_done, sta_done, sc_known, sc_pass, retired, performed, faulted; uint32_t rdata; bool rdata_known; int serial;
};
static Op op[MAXOPS], queued; static bool have, closed; static mask_t live_tags, freed; static int head, tail, serial; static uint32_t dice, mem[WORDS], arch[WORDS]; static int cyc, retired_total, accesses, oldest; static uint64_t loads_checked;
static RealLsu lsu; static RobCommitIO rob_commit; static RobBroadcastIO rob_bcast; static DecBroadcastIO dec_bcast; static CsrStatusIO csr; static DisLsuIO dis; static LsuDisIO lsu2dis; static ExeLsuIO exe; static LsuExeIO wb; static PeripheralReqIO preq; static PeripheralRespIO presp; static DcacheLsuIO dresp; static LsuDcacheIO dreq; static MMULsuIO mmu_a; static LsuMMUIO mmu_q; static LsuRobIO lsu2rob;
static int stq_owner[STQ_SIZE], drained; // operation held by each queue slot
static struct { bool busy, load, live; int op, wait; uint32_t rdata; } dev; static LsuDcacheIO asked; static int res_state; static uint32_t res_addr; // 0 none, 1 held, 2 either
static int p_miss, p_replay, p_squash, p_flush, slow, p_mmio, p_amo, p_fault; static bool irq_mode;
inline uint32_t roll(uint32_t n) { dice ^= dice << 13; dice ^= dice >> 17; dice ^= dice << 5; return (dice >> 3) % n; }
inline int width(int f3) { return 1 << (f3 & 3); }
inline bool is_st(const Op &o) { return o.kind == ST || o.kind == SC || o.kind == AMO; }
inline bool is_ld(const Op &o) { return o.kind == LD || o.kind == LR || o.kind == AMO; }
inline bool atomic(const Op &o) { return o.kind == LR || o.kind == SC || o.kind == AMO; }
inline uint32_t physical(uint32_t va) { return (va >> 12) == 0x802 || (va >> 12) == 0x401 ? 0x80001000u | (va & 0xfff) : (va >> 12) == 0x555 ? 0x1fb00000u | (va & 0xfff) : 0x10000000u | (va & 0xfff); }
inline uint32_t byte_of(uint32_t w, int b) { return w >> 8 * b & 0xff; }
inline uint32_t merge(uint32_t old, const Op &o) { uint32_t r = old; for (int i = 0; i < width(o.f3); i++) { int b = (o.pa & 3) + i; r = (r & ~(0xffu << 8 * b)) | byte_of(o.data, i) << 8 * b; } return r; }
inline uint32_t extend(uint32_t word, const Op &o) { uint32_t v = word >> 8 * (o.pa & 3); int w = 8 * width(o.f3); if (w == 32) return v; v &= (1u << w) - 1; return o.f3 & 4 ? v : (uint32_t)((int32_t)(v << (32 - w)) >> (32 - w)); }
inline bool overlap(const Op &a, const Op &b) { return a.pa < b.pa + width(b.f3) && b.pa < a.pa + width(a.f3); }
inline int rob_of(int k) { return k % ROB_NUM; }
inline bool rob_flag_of(int k) { return k / ROB_NUM & 1; }
inline bool complete(const Op &o) { if (o.kind == BR) return o.resolve_at < cyc && !o.wrong; if (is_ld(o) && !o.ld_done) return false; if (o.kind == SC && !o.sc_known) return false; if ((o.kind == ST || o.kind == AMO) && !o.sta_done) return false; return !is_st(o) || o.std_sent || o.faulted; }
inline void start(uint32_t seed) {
  __v_noexit(1); dice = seed * 2654435761u + 777; head = tail = serial = cyc = oldest = accesses = 0; closed = have = false; live_tags = 0; dev = {}; asked = {}; lsu.in = {&rob_commit, &rob_bcast, &dec_bcast, &csr, &dis, &exe, &presp, &dresp, &mmu_a}; lsu.out = {&lsu2dis, &lsu2rob, &wb, &preq, &dreq, &mmu_q}; lsu.init(); res_state = 0; retired_total = 0;
  for (int w = 0; w < WORDS; w++) mem[w] = arch[w] = v_any<uint32_t>(v_name("memory", w)); for (auto &x : stq_owner) x = -1;
}
// ---- one more instruction of the program
inline Op fresh() {
  Op o = {}; int k = roll(20); o.kind = (int)roll(100) < p_amo ? (roll(3) == 0 ? LR : roll(2) ? SC : AMO) : k < 9 ? LD : k < 18 ? ST : BR; int f = roll(4); o.f3 = atomic(o) ? 2 : f == 0 ? 0 : f == 1 ? 1 : 2; o.word = roll(WORDS > 3 && roll(3) ? 2 : WORDS);
  if (o.kind == LD && o.f3 < 2 && roll(2)) o.f3 |= 4; int off = o.word * 4 + (o.f3 & 3 ? (o.f3 & 3) == 1 ? 2 * roll(2) : 0 : roll(4)); o.va = (roll(3) ? 0x401000u : 0x802000u) + off; if (!atomic(o) && o.kind != BR && (int)roll(100) < p_mmio) { o.mmio = true; o.va = (roll(2) ? 0x555000u : 0x666000u) + 4 * roll(3); o.f3 = 2; }
  o.pa = physical(o.va); o.fault = o.kind != BR && (int)roll(100) < p_fault; o.serial = ++serial; o.data = v_any<uint32_t>(v_name("data", serial)); o.tag = -1; o.stq = o.ldq = -1; return o;
}
inline void dispatch() {
  int st = 0, ld = 0; dis = {}; if (closed || rob_bcast.flush || dec_bcast.mispred) return; int n = roll(4) ? DECODE_WIDTH : roll(DECODE_WIDTH + 1);
  for (int i = 0; i < n && tail < MAXOPS - 1 && tail - head < ROB_NUM - 8; i++) {
    if (!have) { queued = fresh(); have = true; } Op &o = queued; if (atomic(o) && (head != tail)) break;
    if (is_st(o) && st >= lsu2dis.stq_free) break; if (is_ld(o) && (ld >= MAX_LDQ_DISPATCH_WIDTH || !lsu2dis.ldq_alloc_valid[ld])) break; int tag = -1; if (o.kind == BR) { for (int t = 1; t < 4 && tag < 0; t++) if (!((live_tags | freed) >> t & 1)) tag = t; if (tag < 0) break; }
    int k = tail; o.mask = live_tags; if (tag >= 0) { o.tag = tag; live_tags |= (mask_t)1 << tag; o.resolve_at = cyc + 2 + roll(slow * 4); o.wrong = (int)roll(100) < p_squash; }
    o.agu_at = cyc + 2 + (roll(2) ? roll(slow) : 0); o.std_at = cyc + 2 + (roll(2) ? roll(slow) : 0); uint32_t at = lsu2dis.stq_tail + st; bool fl = lsu2dis.stq_tail_flag; if (at >= STQ_SIZE) { at -= STQ_SIZE; fl = !fl; } o.snap = at; o.snap_flag = fl;
    if (is_st(o)) { o.stq = at; o.stq_flag = fl; dis.alloc_req[st] = 1; dis.br_mask[st] = o.mask; dis.func3[st] = o.f3; dis.rob_idx[st] = rob_of(k); dis.rob_flag[st] = rob_flag_of(k); dis.stq_flag[st] = fl; st++; stq_owner[at] = k; }
    if (is_ld(o)) { o.ldq = lsu2dis.ldq_alloc_idx[ld]; for (int j = head; j < tail; j++) V_REQUIRE(!(is_ld(op[j]) && !op[j].ld_done && op[j].ldq == o.ldq), "a load gets an unused queue slot"); dis.ldq_alloc_req[ld] = 1; dis.ldq_idx[ld] = o.ldq; dis.ldq_br_mask[ld] = o.mask; dis.ldq_rob_idx[ld] = rob_of(k); dis.ldq_rob_flag[ld] = rob_flag_of(k); ld++; }
    op[tail++] = o; have = false; if (atomic(o)) break;
  }
}
inline void issue() {
  exe = {}; int agu = 0, sdu = 0;
  for (int k = head; k < tail; k++) {
    Op &o = op[k]; auto fill = [&](auto &r, UopType u, uint32_t result) { r.valid = true; r.uop.op = encode_uop_type(u); r.uop.result = result; r.uop.func3 = o.f3; r.uop.rob_idx = rob_of(k); r.uop.rob_flag = rob_flag_of(k); r.uop.br_mask = o.mask; r.uop.is_atomic = atomic(o); r.uop.func7 = o.kind == LR ? AmoOp::LR << 2 : o.kind == SC ? AmoOp::SC << 2 : o.kind == AMO ? AmoOp::SWAP << 2 : 0; r.uop.dest_preg = (o.serial * 7) % PRF_NUM; };
    if (is_ld(o) && !o.agu_sent && o.agu_at <= cyc && agu < LSU_AGU_COUNT && (o.kind != AMO || true)) { auto &r = exe.agu_req[agu++]; fill(r, UOP_LOAD, o.va); r.uop.ldq_idx = o.ldq; r.uop.stq_idx = o.snap; r.uop.stq_flag = o.snap_flag; o.agu_sent = true; if (o.kind == AMO) { o.agu_at = cyc + 1 + roll(slow); o.std_at = 1 << 30; } }
    else if (is_st(o) && (o.kind != AMO || o.agu_sent) && !o.under && o.agu_at <= cyc && agu < LSU_AGU_COUNT) { auto &r = exe.agu_req[agu++]; fill(r, UOP_STA, o.va); r.uop.stq_idx = o.stq; r.uop.stq_flag = o.stq_flag; o.under = 1; o.agu_sent = true; }
    if (o.kind == AMO && o.ld_done && o.std_at == 1 << 30) o.std_at = cyc + 1 + roll(slow);
    if (is_st(o) && !o.std_sent && o.std_at <= cyc && sdu < LSU_SDU_COUNT) { auto &r = exe.sdu_req[sdu++]; fill(r, UOP_STD, o.data); r.uop.stq_idx = o.stq; r.uop.stq_flag = o.stq_flag; o.std_sent = true; }
  }
}
inline void kill_from(int k) { if (k < tail) tail = k; for (auto &x : stq_owner) if (x >= k) x = -1; have = false; live_tags = 0; for (int j = head; j < tail; j++) if (op[j].kind == BR && op[j].resolve_at > cyc) live_tags |= (mask_t)1 << op[j].tag; if (dev.busy && dev.live && dev.load && dev.op >= k) dev.live = false; }
static int kill_at;
inline void retire_and_resolve() {
  rob_commit = {}; rob_bcast = {}; dec_bcast = {}; kill_at = -1; freed = 0; int n = 0; int stop = head + roll(COMMIT_WIDTH + 1); if (head < tail && op[head].faulted) stop = head + 1;
  // retirement
  for (; head < tail && head < stop && n < COMMIT_WIDTH; ) {
    Op &o = op[head]; if (!complete(o)) break; auto &e = rob_commit.commit_entry[n]; e.valid = 1; e.uop.type = encode_inst_type(o.kind == LD ? LOAD : o.kind == ST ? STORE : o.kind == BR ? ::BR : ::AMO); e.uop.stq_idx = o.stq < 0 ? 0 : o.stq; e.uop.stq_flag = o.stq_flag; e.uop.rob_idx = rob_of(head); e.uop.func7 = o.kind == LR ? AmoOp::LR << 2 : o.kind == SC ? AmoOp::SC << 2 : AmoOp::SWAP << 2;
    if (o.faulted) { if (n) { e = {}; break; } rob_bcast.flush = 1; rob_bcast.exception = 1; head++; kill_at = head; o.retired = false; o.performed = true; break; }
    o.retired = true; n++; head++; retired_total++; if (is_st(o) && !o.mmio && !(o.kind == SC && !o.sc_pass)) arch[o.word] = merge(arch[o.word], o); if (!is_st(o) || (o.kind == SC && !o.sc_pass)) o.performed = true;
  }
  if (kill_at < 0 && irq_mode && head < tail && (int)roll(100) < p_flush && n == 0) { // an interrupt replaces the oldest instruction, finished or not
    Op &o = op[head]; auto &e = rob_commit.commit_entry[0]; e.valid = 1; e.uop.type = encode_inst_type(o.kind == LD ? LOAD : o.kind == ST ? STORE : o.kind == BR ? ::BR : ::AMO); e.uop.stq_idx = o.stq < 0 ? 0 : o.stq; e.uop.stq_flag = o.stq_flag; e.uop.rob_idx = rob_of(head); e.uop.func7 = o.kind == LR ? AmoOp::LR << 2 : o.kind == SC ? AmoOp::SC << 2 : AmoOp::SWAP << 2; rob_bcast.flush = 1; rob_bcast.interrupt = 1; rob_bcast.exception = 1; kill_at = head; 
  }
  rob_bcast.head_valid = head < tail; rob_bcast.head_rob_idx = rob_of(head); int line = head / COMMIT_WIDTH; for (int k = head; k < tail && k / COMMIT_WIDTH == line; k++) if (!complete(op[k])) { rob_bcast.head_incomplete_valid = 1; rob_bcast.head_incomplete_rob_idx = rob_of(k); break; }
  // branch resolution, oldest wrong one first
  if (kill_at < 0) for (int k = head; k < tail; k++) { Op &o = op[k]; if (o.kind != BR || o.resolve_at != cyc) continue; if (o.wrong && dec_bcast.mispred) { o.resolve_at++; continue; } dec_bcast.clear_mask |= (mask_t)1 << o.tag; if (o.wrong) { dec_bcast.mispred = 1; dec_bcast.br_mask = (mask_t)1 << o.tag; kill_at = k + 1; o.wrong = false; } live_tags &= ~((mask_t)1 << o.tag); freed |= (mask_t)1 << o.tag; if (kill_at >= 0) break; }
  else for (int k = head; k < tail; k++) if (op[k].kind == BR && op[k].resolve_at == cyc) op[k].resolve_at++;
}
inline uint32_t expected(int k) {
  Op &o = op[k]; uint32_t w = arch[o.word], open = 0; for (int j = head; j < k; j++) { Op &s = op[j]; if (!is_st(s) || s.mmio || !overlap(s, o)) continue; uint32_t lanes = ((1u << width(s.f3)) - 1) << (s.pa & 3); if (s.fault || (s.kind == SC && !s.sc_known)) open |= lanes; else if (s.kind != SC || s.sc_pass) w = merge(w, s), open &= ~lanes; }
  V_REQUIRE(!(open & ((1u << width(o.f3)) - 1) << (o.pa & 3)), "a load waits for the outcome of a store it depends on"); return extend(w, o);
}
inline int by_rob(uint32_t r) { for (int k = head; k < tail; k++) if ((uint32_t)rob_of(k) == r) return k; return -1; }
inline void hear() {
  bool gone = rob_bcast.flush; if (gone) for (int k = head; k < tail; k++) if (op[k].kind == LR || op[k].kind == SC) res_state = 3; // whether it got that far is not observable
  for (auto &e : wb.wb_req) { if (!e.valid || gone) continue; int k = by_rob(e.uop.rob_idx); V_REQUIRE(k >= 0, "only live instructions receive memory results"); Op &o = op[k]; if (dec_bcast.mispred && k >= kill_at) { V_REQUIRE((e.uop.br_mask & dec_bcast.br_mask) != 0, "the result of a squashed load carries the squashed branch"); continue; }
    V_REQUIRE(decode_uop_type(e.uop.op) == UOP_LOAD, "a load result is marked as one"); v_is<uint32_t>(e.uop.br_mask, (uint32_t)o.mask, "a result carries the unresolved branches of its instruction");
    if (o.kind == SC) { V_REQUIRE(o.under && !o.sc_known, "a conditional store reports once"); if (o.fault) { V_REQUIRE(e.uop.page_fault_store && !e.uop.page_fault_load, "a store fault is reported as one"); v_is<uint32_t>(e.uop.diag_val, o.va, "a fault names the virtual address"); o.sc_known = true; o.sc_pass = false; o.faulted = true; res_state = 0; continue; }
      V_REQUIRE(!e.uop.page_fault_store && !e.uop.page_fault_load, "no fault without reason"); bool pass = (e.uop.result & 0xffffffff) == 0; if (res_state == 3) ; else if (res_state == 2) V_REQUIRE(!pass || res_addr == o.pa, "a conditional store succeeds exactly with a reservation for its word"); else V_REQUIRE(pass == (res_state == 1 && res_addr == o.pa), "a conditional store succeeds exactly with a reservation for its word"); v_is<uint32_t>(e.uop.result, pass ? 0 : 1, "a conditional store returns zero or one"); v_is<uint32_t>(e.uop.dest_preg, (o.serial * 7) % PRF_NUM, "a result goes to its own register"); V_REQUIRE(e.uop.dest_en, "a conditional store writes its register"); o.sc_known = true; o.sc_pass = pass; res_state = 0; continue; }
    V_REQUIRE(is_ld(o) && o.agu_sent && !o.ld_done, "each load reports once"); o.ld_done = true; V_REQUIRE(!e.uop.page_fault_store, "a load does not report a store fault");
    V_REQUIRE((bool)e.uop.page_fault_load == o.fault, "a load faults exactly when its translation does"); v_is<uint32_t>(e.uop.dest_preg, (o.serial * 7) % PRF_NUM, "a result goes to its own register"); V_REQUIRE(e.uop.dest_en, "a load writes its register");
    if (o.fault) { o.faulted = true; v_is<uint32_t>(e.uop.diag_val, o.va, "a fault names the virtual address"); res_state = 2; continue; }
    if (o.mmio) { V_REQUIRE(o.rdata_known, "a device load reports what the device answered to it"); v_is<uint32_t>(e.uop.result, o.rdata, "a device load reports what the device answered to it"); continue; }
    v_is<uint32_t>(e.uop.result, expected(k), "a load returns the youngest older store to each byte, or memory"); loads_checked++; if (o.kind == LR) { res_state = 1; res_addr = o.pa; }
  }
  for (auto &e : wb.sta_wb_req) { if (!e.valid || gone) continue; int k = by_rob(e.uop.rob_idx); V_REQUIRE(k >= 0, "only live instructions receive memory results"); Op &o = op[k]; if (dec_bcast.mispred && k >= kill_at) { V_REQUIRE((e.uop.br_mask & dec_bcast.br_mask) != 0, "the result of a squashed store carries the squashed branch"); continue; }
    V_REQUIRE((o.kind == ST || o.kind == AMO) && o.under && !o.sta_done, "each store reports its address once"); V_REQUIRE(decode_uop_type(e.uop.op) == UOP_STA && !e.uop.dest_en, "a store address report writes no register"); o.sta_done = true; V_REQUIRE((bool)e.uop.page_fault_store == o.fault && !e.uop.page_fault_load, "a store faults exactly when its translation does"); v_is<uint32_t>(e.uop.br_mask, (uint32_t)o.mask, "a result carries the unresolved branches of its instruction"); if (o.fault) { o.faulted = true; v_is<uint32_t>(e.uop.diag_val, o.va, "a fault names the virtual address"); res_state = 2; } }
}
inline void translate() {
  mmu_a = {}; auto go = [&](MMUReq &q, MMUResp &a, bool load) { if (!q.valid) return; int k = -1; for (int j = head; j < tail; j++) if (load ? is_ld(op[j]) && op[j].ldq == (int)q.entry_idx && op[j].agu_sent && !op[j].ld_done : is_st(op[j]) && op[j].stq == (int)q.entry_idx && op[j].under) k = j; V_REQUIRE(k >= 0, "only live instructions are translated"); v_is<uint32_t>(q.vaddr, op[k].va, "the address translated is the one computed"); a.valid = 1; a.entry_idx = q.entry_idx; a.wait_idx = q.wait_idx; a.paddr = op[k].pa; a.result = (int)roll(100) < p_miss ? MMUResultType::MISS : op[k].fault ? MMUResultType::PAGE_FAULT : MMUResultType::HIT; if (a.result == MMUResultType::PAGE_FAULT && res_state == 1) res_state = 2; };
  for (int i = 0; i < LDP; i++) go(mmu_q.ldq_req[i], mmu_a.ldq_resp[i], true); for (int i = 0; i < STP; i++) go(mmu_q.stq_req[i], mmu_a.stq_resp[i], false);
}
inline void cache_answers() {
  dresp = {}; for (int i = 0; i < LDP; i++) { auto &q = asked.req_ports.load_ports[i]; auto &a = dresp.resp_ports.load_resps[i]; a.valid = q.valid; if (!q.valid) continue; a.req_id = q.req_id; a.replay = (int)roll(100) < p_replay ? (ReplayType)(1 + roll(3)) : ReplayType::HIT; uint32_t w = (q.addr - 0x80001000u) >> 2; V_REQUIRE(w < WORDS, "only addresses of the program reach the cache"); a.data = a.replay == ReplayType::HIT ? mem[w] : 0xbad0bad0u; }
  for (int i = 0; i < STP; i++) { auto &q = asked.req_ports.store_ports[i]; auto &a = dresp.resp_ports.store_resps[i]; a.valid = q.valid; if (!q.valid) continue; a.req_id = q.req_id; a.replay = (int)roll(100) < p_replay ? (ReplayType)(1 + roll(3)) : ReplayType::HIT; if (a.replay != ReplayType::HIT) continue; uint32_t w = (q.addr - 0x80001000u) >> 2; int k = stq_owner[q.req_id]; op[k].performed = true; mem[w] = merge(mem[w], op[k]); stq_owner[q.req_id] = -1; }
  if (roll(3) == 0) { dresp.mshr_fill = 1; dresp.mshr_fill_addr = 0x80001000u + 64 * roll(2); }
}
inline void cache_hears() {
  asked = dreq; for (int i = 0; i < STP; i++) { auto &q = dreq.req_ports.store_ports[i]; if (!q.valid) continue; V_REQUIRE(q.req_id < STQ_SIZE && stq_owner[q.req_id] >= 0, "a store is written once"); int k = stq_owner[q.req_id]; Op &o = op[k]; V_REQUIRE(o.retired && !o.performed && !o.mmio, "a store is written only after it retired"); V_REQUIRE(!(o.kind == SC && !o.sc_pass), "a failed conditional store is not written"); v_is<uint32_t>(q.addr >> 2, o.pa >> 2, "a store is written at its physical address"); uint32_t lanes = 0; for (int j = 0; j < width(o.f3); j++) lanes |= 1u << ((o.pa & 3) + j); V_REQUIRE(q.strb == lanes, "a store writes exactly its bytes"); for (int j = 0; j < width(o.f3); j++) v_is<uint32_t>(byte_of(q.data, (o.pa & 3) + j), byte_of(o.data, j), "a store writes its data"); for (int j = oldest; j < k; j++) V_REQUIRE(!(op[j].retired && !op[j].performed && is_st(op[j]) && overlap(op[j], o)), "stores to one location are written in order"); }
  for (int i = 0; i < LDP; i++) V_REQUIRE(!(dreq.req_ports.load_ports[i].valid && lsu_is_mmio_addr(dreq.req_ports.load_ports[i].addr)), "device addresses do not reach the cache");
}
inline void device_answers() { presp = {}; presp.ready = !dev.busy || dev.wait == 0; if (dev.busy && dev.wait == 0) { presp.is_mmio = 1; presp.mmio_rdata = dev.rdata; dev.busy = false; if (dev.live) { Op &o = op[dev.op]; if (dev.load) { o.rdata = dev.rdata; o.rdata_known = true; } else { o.performed = true; stq_owner[o.stq] = -1; } } } else if (dev.busy) dev.wait--; }
inline void device_hears() {
  if (!preq.is_mmio) return; V_REQUIRE(presp.ready, "a device is addressed when it is ready"); V_REQUIRE(!dev.busy, "one device access at a time"); int k = -1;
  if (preq.wen) { for (int j = oldest; j < head; j++) if (op[j].retired && !op[j].performed) { k = j; break; } V_REQUIRE(k >= 0 && op[k].mmio && is_st(op[k]), "a device store happens after retirement, in order"); v_is<uint32_t>(preq.mmio_wdata, op[k].data, "a device store carries its data"); }
  else { for (int j = head; j < tail; j++) if (!complete(op[j])) { k = j; break; } V_REQUIRE(k >= 0 && op[k].mmio && is_ld(op[k]) && !op[k].ld_done, "a device load happens when everything older is finished"); for (int j = oldest; j < k; j++) V_REQUIRE(!(op[j].retired || j >= head) || !is_st(op[j]) || op[j].performed, "a device load waits for older stores"); }
  Op &o = op[k]; v_is<uint32_t>(preq.mmio_addr, o.pa, "a device access has its own address"); v_is<uint32_t>(preq.mmio_fun3, o.f3, "a device access has its own width"); dev = {true, !preq.wen, true, k, (o.pa >> 28) == 1 && (o.pa & 0x0f000000) == 0 ? 0 : (int)roll(30), v_any<uint32_t>(v_name("device", ++accesses))};
}
inline void cycle() {
  cyc++; while (oldest < head && (op[oldest].performed || !op[oldest].retired)) oldest++; device_answers(); cache_answers(); lsu.comb_cal(); lsu.comb_lsu2dis(); lsu.comb_lsu2rob(); bool pending = false; for (int j = oldest; j < head; j++) pending |= op[j].retired && !op[j].performed && is_st(op[j]); if (pending) V_REQUIRE(lsu2rob.committed_store_pending, "retired stores not yet performed are announced");
  retire_and_resolve(); lsu.comb_stq_commit(); lsu.comb_mmio_in(); lsu.comb_dcache2lsu_ldq(); lsu.comb_dcache2lsu_stq(); lsu.comb_lsu2exe(); hear(); issue(); lsu.comb_exe2lsu(); lsu.comb_tlb_out(); translate(); lsu.comb_tlb_in_ldq(); lsu.comb_tlb_in_stq(); lsu.comb_stlf(); dispatch(); lsu.comb_dis2lsu();
  if (kill_at >= 0) kill_from(kill_at); for (int k = head; k < tail; k++) op[k].mask &= ~dec_bcast.clear_mask; lsu.comb_flush(); lsu.comb_lsu2dcache_ldq(); lsu.comb_lsu2dcache_stq(); lsu.comb_mmio_out(); cache_hears(); device_hears(); lsu.comb_check(); lsu.seq();
}
inline bool quiet() { if (head < tail || dev.busy) return false; for (int j = oldest; j < head; j++) if (op[j].retired && !op[j].performed) return false; return lsu2dis.stq_free == STQ_SIZE && !lsu2rob.committed_store_pending; }
inline void drain(int most) { p_squash = p_flush = p_miss = 0; p_replay = 10; closed = true; for (int i = 0; i < most && !quiet(); i++) cycle(); V_REQUIRE(quiet(), "every access is eventually performed"); for (int w = 0; w < WORDS; w++) v_is<uint32_t>(mem[w], arch[w], "retired stores, and only they, end up in memory"); }
}
