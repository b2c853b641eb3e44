// Inputs of one translation and what must come out of it.
#pragma once
namespace tlbm {
enum { OK = 0, FAULT = 1, RETRY = 2 };
template <class I> void any_core(I &in, uint32_t type) {
  v_in(in, "in");
  in.privilege = sv32::legal_priv(in.privilege); in.mstatus_mpp = sv32::legal_priv(in.mstatus_mpp);
  in.type = type; in.tlb_capacity = DTLB_ENTRIES; in.repl_ptr &= DTLB_ENTRIES - 1;
  in.refill.slot &= DTLB_ENTRIES - 1; in.refill.next_repl_ptr &= DTLB_ENTRIES - 1;
  in.walk_resp.leaf_level &= 1;
}
inline bool covers(const TlbMmu::TlbEntry &e, uint32_t va, uint32_t satp) {
  return e.valid && (e.global || e.asid == (satp >> 22 & 0x1ff)) && e.vpn1 == va >> 22 && (e.level || e.vpn0 == (va >> 12 & 0x3ff));
}
struct Want { uint32_t result, pa; bool identity, hit, answered, mismatch; TlbMmu::TlbEntry e; };
inline Want want(const TlbMmu::CoreInput &in) {
  Want w{}; uint32_t va = in.v_addr, satp = in.satp, ep = sv32::eff(in.type, in.privilege, in.mstatus_mprv, in.mstatus_mpp);
  w.identity = ep == 3 || !(satp >> 31);
  if (w.identity) { w.pa = va; return w; }
  bool pend = in.refill.valid && covers(in.refill.entry, va, satp);
  w.hit = pend || in.lookup.hit; w.e = pend ? in.refill.entry : in.lookup.entry;
  if (w.hit) {
    w.result = sv32::may(w.e.perm, in.type, ep, in.mstatus_sum, in.mstatus_mxr) ? OK : FAULT;
    w.pa = sv32::pa(w.e.ppn, w.e.level, va); return w;
  }
  bool mine = in.walk.active && in.walk.v_addr >> 12 == va >> 12 && in.walk.satp == satp && in.walk.req_sent && in.walk_resp_valid;
  w.mismatch = mine && (uint32_t)in.walk_resp.vaddr >> 12 != (uint32_t)in.walk.v_addr >> 12;
  w.answered = mine && !w.mismatch;
  uint32_t pte = in.walk_resp.leaf_pte;
  w.result = !w.answered ? RETRY : !in.walk_resp.fault && sv32::may(pte, in.type, ep, in.mstatus_sum, in.mstatus_mxr) ? OK : FAULT;
  w.pa = sv32::pa(pte >> 10, in.walk_resp.leaf_level, va);
  return w;
}
// e covers va in address space asid up to one bit of each field
inline uint32_t put(uint32_t x, const char *n, int i, int k) { return (x & ~(1u << k)) | (uint32_t)v_any<bool>(v_name(n, i)) << k; }
inline void near(TlbMmu::TlbEntry &e, uint32_t va, uint32_t asid, int k, int i) {
  e.vpn1 = put(va >> 22, "b1_", i, k); e.vpn0 = put(va >> 12 & 0x3ff, "b0_", i, k); e.asid = put(asid, "ba_", i, k % 9);
}
}
