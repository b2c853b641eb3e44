// P11: TLB entries.
// ENTRY: lookup 10
// ENTRY: core_next 12
// ENTRY: top_agree 9
// ENTRY: lsu_ports 16
// ENTRY: object 12
#include "vh.h"
#include "sv32.h"
#include "back-end/Lsu/TlbMmu.cpp"
#include "MemSubSystem/PtwWalker.cpp"
#include "tlbm.h"
long long sim_time;
extern "C" void lookup(int k) {
  static TlbMmu::TlbEntry e[DTLB_ENTRIES];
  TlbMmu::LookupInput in; v_in(in, "in");
  __v_order(((uint32_t)in.v_addr >> (22 + k) & 1) | ((uint32_t)in.v_addr >> (12 + k) & 1) << 1 | ((uint32_t)in.asid >> k % 9 & 1) << 2);
  // each entry may differ from the request in one bit position of each field
  for (int i = 0; i < DTLB_ENTRIES; i++) { v_in(e[i], v_name("entry", i)); e[i].ppn = i * 0x1111; tlbm::near(e[i], in.v_addr, in.asid, k, i); }
  TlbMmu::LookupOutput o = TlbMmu::lookup_table_comb(in, e, DTLB_ENTRIES);
  uint32_t satp = (uint32_t)in.asid << 22; bool any = false;
  for (int i = 0; i < DTLB_ENTRIES; i++) {
    bool c = in.valid && tlbm::covers(e[i], in.v_addr, satp); any = any || c;
    if (o.hit && o.entry.ppn == (uint32_t)i * 0x1111) {
      V_REQUIRE(c, "the translation returned is that of a covering entry");
      v_is<bool>(o.entry.level, e[i].level, "the page size returned is that of the entry");
    }
  }
  v_is<bool>(o.hit, any, "an entry is used exactly for the pages and address spaces it covers");
  if (o.hit) V_REQUIRE(tlbm::covers(o.entry, in.v_addr, satp), "the entry returned covers the request");
}
static void next_is(const TlbMmu::CoreInput &in, const tlbm::Want &w, const TlbMmu::CoreOutput &out, const char *who) {
  bool fill = in.translate_valid && !w.identity && !w.hit && w.answered && w.result == tlbm::OK;
  TlbMmu::PendingRefill x = in.refill; uint32_t pte = in.walk_resp.leaf_pte, va = in.v_addr;
  if (fill) {
    x.valid = true; x.slot = in.repl_ptr % DTLB_ENTRIES; x.next_repl_ptr = (in.repl_ptr + 1) % DTLB_ENTRIES;
    x.entry.valid = true; x.entry.global = (pte & sv32::G) != 0; x.entry.asid = (uint32_t)in.satp >> 22 & 0x1ff; x.entry.level = (uint32_t)in.walk_resp.leaf_level;
    x.entry.vpn1 = va >> 22; x.entry.vpn0 = va >> 12 & 0x3ff; x.entry.ppn = pte >> 10; x.entry.perm = pte & 0xff;
  }
  v_is<bool>(out.refill_next.valid, x.valid, v_rule("an entry is refilled exactly when a permitted walk ends", who));
  if (x.valid) v_eq(out.refill_next.entry, x.entry, v_rule("the refilled entry is the walked leaf under the requesting page and address space", who));
  if (x.valid) v_is<uint32_t>((uint32_t)out.refill_next.slot, (uint32_t)x.slot, v_rule("one slot is refilled, in turn", who));
  if (x.valid) v_is<uint32_t>((uint32_t)out.refill_next.next_repl_ptr, (uint32_t)x.next_repl_ptr, v_rule("one slot is refilled, in turn", who));
  bool miss = in.translate_valid && !w.identity && !w.hit, other = in.walk.active && ((uint32_t)in.walk.v_addr >> 12 != va >> 12 || in.walk.satp != in.satp);
  bool send = miss && !other && !(in.walk.active && in.walk.req_sent) && in.walk_req_ready;
  v_is<bool>(out.walk_resp_consumed, miss && (w.answered || w.mismatch), v_rule("a walk answer is taken exactly by the walk waiting for it", who));
  v_is<bool>(out.walk_req_valid, send, v_rule("one walk is requested per miss", who));
  uint32_t wva = in.walk.active ? (uint32_t)in.walk.v_addr : va;
  if (send) { v_is<uint32_t>((uint32_t)out.walk_req.vaddr, wva, v_rule("the walk requested is for the missing page", who)); v_is<uint32_t>((uint32_t)out.walk_req.satp, (uint32_t)in.satp, v_rule("the walk requested is for the current address space", who)); }
  bool act = miss ? !w.answered : (bool)in.walk.active;
  v_is<bool>(out.walk_next.active, act, v_rule("a walk is pending until it is answered", who));
  if (act) {
    v_is<uint32_t>((uint32_t)out.walk_next.v_addr, miss ? wva : (uint32_t)in.walk.v_addr, v_rule("the pending walk keeps its page", who));
    v_is<uint32_t>((uint32_t)out.walk_next.satp, in.walk.active ? (uint32_t)in.walk.satp : (uint32_t)in.satp, v_rule("the pending walk keeps its address space", who));
    v_is<bool>(out.walk_next.req_sent, (in.walk.active && in.walk.req_sent) || send, v_rule("a pending walk is sent once", who));
  }
}
extern "C" void core_next(int part) {
  int type = part % 3, impl = part / 3 % 2, wk = part / 6;
  TlbMmu::CoreInput in; tlbm::any_core(in, type);
  if (wk) { in.walk.active = true; in.walk.req_sent = true; in.walk_resp_valid = true; in.walk.v_addr = (in.walk.v_addr & 0xfff) | (in.v_addr & ~0xfffu); in.walk.satp = in.satp; in.walk_resp.vaddr = (uint32_t)in.v_addr & ~0xfffu; in.lookup.hit = false; in.refill.valid = false; }
  tlbm::Want w = tlbm::want(in);
  TlbMmu::CoreOutput out = impl ? run_core_lane_via_io_generator(in, DTLB_ENTRIES) : TlbMmu::core_comb(in);
  next_is(in, w, out, impl ? "packaged TLB kernel" : "TLB");
}
// the packaged top agrees with the readable one
// (one port at a time, then two ports that both miss; flush; cancel)
extern "C" void top_agree(int part) {
  bool dtlb = part > 0;
  static TlbMmu::TopInput in; v_in(in, "top");
  in.port_count = dtlb ? TlbMmu::kDtlbTopPortCount : TlbMmu::kItlbTopPortCount; in.tlb_capacity = DTLB_ENTRIES; in.repl_ptr &= DTLB_ENTRIES - 1; in.refill.slot &= DTLB_ENTRIES - 1; in.refill.next_repl_ptr &= DTLB_ENTRIES - 1;
  for (int i = 0; i < in.port_count; i++) in.port[i].type = dtlb ? (i < LSU_LDU_COUNT ? 1 : 2) : 0;
  if (part == 6) in.flush = true; else { in.flush = false; if (part == 7) in.cancel = true; else in.cancel = false; }
  if (part >= 1 && part <= 4) for (int i = 0; i < in.port_count; i++) in.port[i].valid = i == part - 1;
  if (part == 5 || part == 8) for (int i = 0; i < in.port_count; i++) { in.port[i].valid = i == 0 || i == in.port_count - 1; in.port[i].lookup.hit = false; }
  if (part == 5) { in.refill.valid = false; in.mstatus_mprv = false; in.privilege = 1; in.satp |= 0x80000000u; in.walk.active = false; }
  if (part == 8) { in.refill.valid = false; in.mstatus_mprv = false; in.privilege = 1; in.satp |= 0x80000000u; in.walk.active = true; in.walk.req_sent = true; in.walk.satp = in.satp; in.walk_resp_valid = true; in.port[0].v_addr = in.port[in.port_count - 1].v_addr = in.walk.v_addr; in.walk_resp.vaddr = (uint32_t)in.walk.v_addr; }
  in.walk_resp.leaf_level &= 1; in.walk_resp.vaddr = (uint32_t)in.walk_resp.vaddr & ~0xfffu; in.walk_resp.leaf_pte = (uint32_t)in.walk_resp.leaf_pte & ~0x300u;
  bool pi[TlbMmu::DTLB_TOP_PI_WIDTH] = {}, po[TlbMmu::DTLB_TOP_PO_WIDTH] = {};
  encode_top_input_bits(pi, in, DTLB_ENTRIES, in.port_count);
  if (dtlb) TlbMmu::dtlb_top_io_generator(pi, po); else TlbMmu::itlb_top_io_generator(pi, po);
  static TlbMmu::TopOutput a, b; a = decode_top_output_bits(po, DTLB_ENTRIES, in.port_count); b = TlbMmu::top_comb(in, DTLB_ENTRIES);
  v_is<bool>(a.table_flush, b.table_flush, "packaged TLB top agrees: flush");
  v_eq(a.walk_next, b.walk_next, "packaged TLB top agrees: pending walk");
  v_eq(a.refill_next, b.refill_next, "packaged TLB top agrees: refill");
  v_is<bool>(a.walk_req_valid, b.walk_req_valid, "packaged TLB top agrees: walk request");
  v_is<bool>(a.walk_resp_consumed, b.walk_resp_consumed, "packaged TLB top agrees: answer taken");
  v_is<bool>(a.walk_client_flush, b.walk_client_flush, "packaged TLB top agrees: walk abandoned");
  for (int i = 0; i < in.port_count; i++) {
    v_is<bool>(a.port[i].resp_valid, b.port[i].resp_valid, "packaged TLB top agrees: answered");
    v_is<uint32_t>((uint32_t)a.port[i].result, (uint32_t)b.port[i].result, "packaged TLB top agrees: result");
    v_is<uint32_t>((uint32_t)a.port[i].p_addr, (uint32_t)b.port[i].p_addr, "packaged TLB top agrees: address");
  }
  if (b.table_flush) { V_REQUIRE(!b.walk_next.active && !b.refill_next.valid && b.walk_client_flush, "flush leaves no walk and no refill"); }
}
struct Port : PtwWalkPort {
  bool ready, has, taken = false, flushed = false; int sent = 0; PtwWalkResp r; PtwWalkReq q;
  bool send_walk_req(const PtwWalkReq &x) override { q = x; sent++; return ready; }
  bool resp_valid() const override { return has && !taken; }
  PtwWalkResp resp() const override { return r; }
  PtwWalkPortCombOut comb_output() const override { PtwWalkPortCombOut o; o.req_ready = ready; o.resp_valid = has && !taken; o.resp = r; return o; }
  void consume_resp() override { taken = true; }
  void flush_client() override { flushed = true; has = false; }
};
static uint32_t g_rp;
// page and address space of the pending walk and of its answer differ from the request in at most bit k
static void near_walk(TlbMmu &m, Port &p, uint32_t va, uint32_t satp, int k) {
  tlbm::near(m.tlb_entries_[3], va, satp >> 22 & 0x1ff, k, 3);
  m.walk_regs_.v_addr = tlbm::put(va, "w_va", 0, 12 + k) & ~0xfffu | ((uint32_t)m.walk_regs_.v_addr & 0xfff); m.walk_regs_.satp = tlbm::put(satp, "w_satp", 0, k % 9 + 22 - (k & 1) * 20);
  p.r.vaddr = tlbm::put(va, "r_va", 0, 12 + k);
}
static void any_mmu(TlbMmu &m, Port &p) {
  m.set_ptw_walk_port(&p);
  for (size_t i = 0; i < m.tlb_entries_.size(); i++) v_in(m.tlb_entries_[i], v_name("entry", i));
  v_in(m.walk_regs_, "walk"); m.repl_ptr_ = g_rp;
  p.ready = v_any<bool>("ready"); p.has = v_any<bool>("has"); v_in(p.r, "resp"); p.r.leaf_level &= 1;
}
// the load/store front of the TLB, two requests at once out of four ports
extern "C" void lsu_ports(int part) {
  static Port p; static TlbMmu m(nullptr, nullptr, DTLB_ENTRIES, TlbMmu::Kind::DTLB); any_mmu(m, p);
  for (int i = 0; i < DTLB_ENTRIES; i++) if (i != 3) m.tlb_entries_[i].valid = false;   // one unknown entry is enough to expose mixing
  LsuMMUIO q{}; MMULsuIO r{}; v_in(q.csr_status, "status");
  q.csr_status.privilege = sv32::legal_priv(q.csr_status.privilege);
  q.csr_status.mstatus = (q.csr_status.mstatus & ~0x1000u) | 0;
  int k = part / 8 * 7; part %= 8; int ld = part & 1, st = part & 1; bool only_ld = part < 2, only_st = part >= 2 && part < 4;
  v_in(q.ldq_req[ld], "ld"); v_in(q.stq_req[st], "st");
  if (only_ld) q.stq_req[st].valid = false; if (only_st) q.ldq_req[ld].valid = false;
  if (part >= 4) { q.ldq_req[ld].valid = q.stq_req[st].valid = true; q.csr_status.privilege = 1; q.csr_status.mstatus &= ~0x20000u; q.csr_status.satp |= 0x80000000u; m.tlb_entries_[3].valid = part >= 6; if (part >= 6) p.has = false; }
  near_walk(m, p, only_st ? q.stq_req[st].vaddr : q.ldq_req[ld].vaddr, q.csr_status.satp, k);
  if (!only_st && !only_ld) q.stq_req[st].vaddr = tlbm::put(q.ldq_req[ld].vaddr, "s_va", 0, 12 + k);
  TlbMmu::TlbEntry e = m.tlb_entries_[3]; TlbMmu::WalkRegs w0 = m.walk_regs_; bool has0 = p.has;
  uint32_t satp = q.csr_status.satp, ms = q.csr_status.mstatus; uint32_t ep = sv32::eff(1, q.csr_status.privilege, ms >> 17 & 1, ms >> 11 & 3);
  m.translate_lsu_ports(q, r);
  for (int i = 0; i < 2; i++) {
    const MMUReq &rq = i ? q.stq_req[st] : q.ldq_req[ld]; const MMUResp &rs = i ? r.stq_resp[st] : r.ldq_resp[ld];
    uint32_t va = rq.vaddr, pte = p.r.leaf_pte; const char *nm = i ? "store" : "load";
    V_REQUIRE(rs.valid == rq.valid, v_rule("every request is answered in the same cycle", nm));
    bool ident = ep == 3 || !(satp >> 31), hit = tlbm::covers(e, va, satp), sum = ms >> 18 & 1, mxr = ms >> 19 & 1;
    bool walked = has0 && w0.active && w0.req_sent && (uint32_t)p.r.vaddr >> 12 == (uint32_t)w0.v_addr >> 12;
    uint32_t wva = w0.v_addr;
    bool by_walk = walked && !p.r.fault && (p.r.leaf_level ? va >> 22 == wva >> 22 : va >> 12 == wva >> 12) && (((uint32_t)w0.satp ^ satp) >> 22 & 0x1ff) * !(pte & sv32::G) == 0;
    bool okh = hit && sv32::may(e.perm, 1 + i, ep, sum, mxr) && rs.paddr == sv32::pa(e.ppn, e.level, va);
    bool okw = by_walk && sv32::may(pte, 1 + i, ep, sum, mxr) && rs.paddr == sv32::pa(pte >> 10, p.r.leaf_level, va);
    if (rq.valid && rs.result == MMUResultType::HIT) {
      V_REQUIRE(ident ? rs.paddr == va : okh || okw, v_rule("a granted access uses a translation that covers and permits it", nm));
    }
    if (rq.valid && rs.result == MMUResultType::PAGE_FAULT)
      V_REQUIRE(!ident && ((hit && !sv32::may(e.perm, 1 + i, ep, sum, mxr)) || (walked && (p.r.fault || !sv32::may(pte, 1 + i, ep, sum, mxr)))), v_rule("a page fault is reported only on a refusing translation or failed walk", nm));
    if (rq.valid) { V_REQUIRE(rs.entry_idx == rq.entry_idx && rs.wait_idx == rq.wait_idx, v_rule("the answer names the request", nm)); }
  }
}
// a cycle of the whole object: nothing but the refill slot changes; a flush empties everything
extern "C" void object(int part) {
  static Port p; bool it = part & 1; int what = part >> 1 > 3 ? 2 : part >> 1, k = part >> 1 > 3 ? (part >> 1) * 4 - 8 : 0; g_rp = part >> 1 > 3 ? 9 : 15;
  static TlbMmu m(nullptr, nullptr, DTLB_ENTRIES, it ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB); any_mmu(m, p);
  static TlbMmu::TlbEntry old[DTLB_ENTRIES]; for (int i = 0; i < DTLB_ENTRIES; i++) old[i] = m.tlb_entries_[i];
  for (auto &e : m.tlb_entries_) if (&e != &m.tlb_entries_[3] && (what >= 2 || &e != &m.tlb_entries_[12])) e.valid = false;
  for (int i = 0; i < DTLB_ENTRIES; i++) old[i] = m.tlb_entries_[i];
  TlbMmu::WalkRegs w0 = m.walk_regs_; bool has0 = p.has; uint32_t rp = m.repl_ptr_;
  CsrStatusIO s; v_in(s, "status"); s.privilege = sv32::legal_priv(s.privilege); s.mstatus = s.mstatus & ~0x1000u;
  uint32_t pa = 0, va = v_any<uint32_t>("va"), type = it ? 0 : v_any<bool>("st") ? 2 : 1; if (what == 1) { m.walk_regs_.type = v_any<uint32_t>("wt") & 1 ? 2 : 1; m.walk_regs_.eff_priv = v_any<uint32_t>("wp") & 1; p.r.vaddr = tlbm::put(m.walk_regs_.v_addr, "r_va", 0, 12); w0 = m.walk_regs_; } if (what == 2) { near_walk(m, p, va, s.satp, k); w0 = m.walk_regs_; for (int i = 0; i < DTLB_ENTRIES; i++) old[i] = m.tlb_entries_[i]; } TlbMmu::Result r = TlbMmu::Result::RETRY;
  if (what == 0) m.flush();
  else if (what == 1) { m.cancel_pending_walk(); }
  else if (what == 2) r = m.translate(pa, va, type, &s);
  else { r = m.translate(pa, va, type, &s); m.flush(); }
  m.seq();
  uint32_t satp = s.satp, ms = s.mstatus, ep = sv32::eff(type, s.privilege, ms >> 17 & 1, ms >> 11 & 3), pte = p.r.leaf_pte; bool sum = ms >> 18 & 1, mxr = ms >> 19 & 1;
  if (what == 0 || what == 3) {
    for (auto &e : m.tlb_entries_) V_REQUIRE(!e.valid, "after a flush no entry is usable");
    V_REQUIRE(!m.walk_regs_.active, "after a flush no walk is in progress");
    V_REQUIRE(p.flushed, "a flush abandons the walk at the walker");
    CsrStatusIO t; v_in(t, "later"); t.privilege = v_any<uint32_t>("later_user") & 1; t.mstatus = 0; t.satp = (uint32_t)t.satp | 0x80000000u;
    p.has = false;
    uint32_t q = 0; TlbMmu::Result z = m.translate(q, v_any<uint32_t>("later_va"), type, &t);
    V_REQUIRE(z == TlbMmu::Result::RETRY, "after a flush nothing is answered before a new walk");
    return;
  }
  if (what == 2) {
    bool ident = ep == 3 || !(satp >> 31), hit = tlbm::covers(old[3], va, satp);
    bool mine = !ident && !hit && w0.active && w0.req_sent && (uint32_t)w0.v_addr >> 12 == va >> 12 && w0.satp == satp && has0 && (uint32_t)p.r.vaddr >> 12 == va >> 12;
    bool fill = mine && !p.r.fault && sv32::may(pte, type, ep, sum, mxr);
    uint32_t want = ident || (hit && sv32::may(old[3].perm, type, ep, sum, mxr)) || fill ? 0 : hit || mine ? 1 : 2;
    v_is<uint32_t>((uint32_t)r, want, it ? "fetch translation result" : "data translation result");
    if (want == 0) v_is<uint32_t>(pa, ident ? va : hit ? sv32::pa(old[3].ppn, old[3].level, va) : sv32::pa(pte >> 10, p.r.leaf_level, va), it ? "fetch translation address" : "data translation address");
    for (uint32_t i = 0; i < DTLB_ENTRIES; i++) {
      bool f = fill && i == rp;
      v_is<bool>(m.tlb_entries_[i].valid, f || old[i].valid, "only the refilled slot changes");
      if (!f && old[i].valid) v_eq(m.tlb_entries_[i], old[i], "other slots keep their entries");
    }
  }
  if (what == 1) {
    V_REQUIRE(!m.walk_regs_.active, "after a cancel no walk is in progress");
    bool fill = has0 && w0.active && w0.req_sent && (uint32_t)p.r.vaddr >> 12 == (uint32_t)w0.v_addr >> 12 && !p.r.fault && sv32::may(pte, w0.type, w0.eff_priv, w0.sum, w0.mxr);
    const TlbMmu::TlbEntry &n = m.tlb_entries_[rp];
    if (n.valid && !old[rp].valid) V_REQUIRE(fill && n.ppn == pte >> 10 && n.perm == (pte & 0xff) && n.global == ((pte & sv32::G) != 0) && n.asid == ((uint32_t)w0.satp >> 22 & 0x1ff) && n.vpn1 == (uint32_t)w0.v_addr >> 22 && n.vpn0 == ((uint32_t)w0.v_addr >> 12 & 0x3ff) && n.level == (uint32_t)p.r.leaf_level, "a cancelled walk leaves an entry only if it had been answered and permitted");
    for (int i = 0; i < DTLB_ENTRIES; i++) if (i != (int)rp) v_eq(m.tlb_entries_[i], old[i], "a cancel keeps the other entries");
  }
}
