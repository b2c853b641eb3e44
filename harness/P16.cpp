// P16: branch tags.
// ENTRY: tags 4
// ENTRY: next 8
// ENTRY: announce
// ENTRY: reset
#include "vh.h"
#include "back-end/Idu.cpp"
long long sim_time;
static PreIduIssueIO issue; static RenDecIO ren2dec; static RobBroadcastIO rob_bcast; static ExuIdIO exu2id; static DecRenIO dec2ren; static DecBroadcastIO dec_bcast; static IduConsumeIO consume; static SimContext ctx;
static Idu idu(&ctx, 1); static bool free0[MAX_BR_NUM]; static uint32_t now0, cp0[MAX_BR_NUM]; static ExuIdIO latch0;
// which instructions are branches is all that matters here (P02 covers decoding)
static void kind(Idu *, DecRenIO::DecRenInst &u, uint32_t inst) { u.type = encode_inst_type(inst & 1 ? BR : inst & 2 ? JALR : inst & 4 ? JAL : ADD); }
static bool is_br(int i) { return issue.entries[i].valid && !issue.entries[i].page_fault_inst && (issue.entries[i].inst & 3); }
static void start(int max_br) {
  __v_model("Idu::decode", (void *)kind);
  idu.max_br_per_cycle = max_br; idu.in = {&issue, &ren2dec, &rob_bcast, &exu2id}; idu.out = {&dec2ren, &dec_bcast, &consume};
  v_in(issue, "issue"); v_in(ren2dec, "ren"); v_in(rob_bcast, "rob"); v_in(exu2id, "exu"); v_in(dec2ren, "stale"); v_in(dec_bcast, "stale_b"); v_in(consume, "stale_c");
  v_in(idu.br_latch, "latch"); v_in(idu.br_mask_cp, "cp");
  // a tag is free exactly when no unresolved branch holds it; tag zero is never free
  uint32_t now = 0; idu.tag_vec[0] = false;
  for (int t = 1; t < MAX_BR_NUM; t++) { bool f = v_any<bool>(v_name("free", t)); idu.tag_vec[t] = f; now |= (uint32_t)!f << t; }
  idu.now_br_mask = now; idu.br_latch.clear_mask &= ~1u;
  if (idu.br_latch.mispred) { uint32_t b = idu.br_latch.br_id; if (b == 0) b = idu.br_latch.br_id = 1; idu.br_latch.clear_mask |= 1u << b; }
  idu.br_latch.clear_mask &= now;   // only branches in flight resolve
  for (int t = 0; t < MAX_BR_NUM; t++) { free0[t] = idu.tag_vec[t]; cp0[t] = idu.br_mask_cp[t]; } now0 = now; latch0 = idu.br_latch;
  idu.comb_begin(); idu.comb_decode(); idu.comb_branch();
}
static uint32_t bit(uint32_t t) { return 1u << t; }
extern "C" void tags(int part) {
  int max_br = 1 + part % 2; start(max_br);
  uint32_t mask = now0 & ~(uint32_t)latch0.clear_mask, nfree = 0; bool stopped = false; uint32_t need = 0;
  for (int t = 1; t < MAX_BR_NUM; t++) nfree += free0[t] && nfree < DECODE_WIDTH ? 1 : 0;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &e = issue.entries[i]; bool v = dec2ren.valid[i], br = is_br(i); uint32_t id = dec2ren.uop[i].br_id;
    need += br ? 1 : 0; bool ok = need <= nfree && need <= (uint32_t)max_br;
    v_is<bool>(v, e.valid && !stopped && (!br || ok), "an instruction waits exactly when a branch at or before it has no tag");
    stopped = stopped || (br && !ok);
    if (v) {
      v_is<uint32_t>(dec2ren.uop[i].br_mask, mask, "every instruction carries the tags of exactly the unresolved older branches");
      if (br) {
        bool was = false; for (int t = 1; t < MAX_BR_NUM; t++) was = was || (id == (uint32_t)t && free0[t]);
        V_REQUIRE(was, "a tag given to a branch is free and not zero");
        for (int j = 0; j < i; j++) if (dec2ren.valid[j] && is_br(j)) V_REQUIRE(id != dec2ren.uop[j].br_id, "branches of a group get different tags");
        mask |= bit(id);
      } else v_is<uint32_t>(id, 0, "only branches get a tag");
      v_eq(dec2ren.uop[i].ftq_idx, e.ftq_idx, "an instruction keeps its fetch group"); v_eq(dec2ren.uop[i].ftq_offset, e.ftq_offset, "an instruction keeps its fetch group"); v_eq(dec2ren.uop[i].ftq_is_last, e.ftq_is_last, "an instruction keeps its fetch group");
      v_eq(dec2ren.uop[i].page_fault_inst, e.page_fault_inst, "a fetch fault stays with its instruction");
    }
  }
}
extern "C" void next(int part) {
  int max_br = 1 + part % 2, mode = part / 2; start(max_br);   // mode: 0 normal 1 mispredict 2 flush 3 flush and mispredict
  rob_bcast.flush = mode & 2; idu.br_latch.mispred = latch0.mispred = mode & 1;
  if (mode & 1) { uint32_t b = idu.br_latch.br_id; idu.br_latch.clear_mask |= b ? bit(b) & now0 : 0; latch0 = idu.br_latch; }
  idu.comb_begin(); idu.comb_decode(); idu.comb_branch(); idu.comb_fire(); idu.seq();
  bool flush = mode & 2, mis = !flush && (mode & 1), run = !flush && !mis;
  uint32_t clear = latch0.clear_mask, now = flush ? 0 : now0 & ~clear;
  uint32_t cb = 0; for (int t = 0; t < MAX_BR_NUM; t++) if (latch0.br_id == (uint32_t)t) cb = cp0[t];
  if (mis) now &= cb;   // exactly the branches at or before the mispredicted one remain
  uint32_t mask = now, got = 0; static uint32_t cp[MAX_BR_NUM]; for (int t = 1; t < MAX_BR_NUM; t++) cp[t] = flush ? cp0[t] : cp0[t] & ~clear;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool f = run && dec2ren.valid[i] && ren2dec.ready; v_is<bool>(consume.fire[i], f, "an instruction leaves decode exactly when it is accepted");
    if (f && is_br(i)) { uint32_t id = dec2ren.uop[i].br_id; mask |= bit(id); got |= bit(id); for (int t = 1; t < MAX_BR_NUM; t++) if (id == (uint32_t)t) cp[t] = mask; }
  }
  v_is<uint32_t>(idu.now_br_mask, mask, "the unresolved branches are the older ones plus the newly tagged ones");
  for (int t = 1; t < MAX_BR_NUM; t++) {
    v_is<bool>(idu.tag_vec[t], !(mask >> t & 1), "a tag is free exactly when no unresolved branch holds it");
    if (mask >> t & 1) v_is<uint32_t>(idu.br_mask_cp[t], cp[t], "a branch remembers exactly the unresolved branches up to it");
  }
  V_REQUIRE(!idu.tag_vec[0], "tag zero is never free");
  V_REQUIRE(!(idu.now_br_mask & 1), "tag zero is never held");
  v_is<bool>(idu.br_latch.mispred, !flush && exu2id.mispred, "a resolved branch is announced one cycle later unless flushed"); v_is<uint32_t>(idu.br_latch.clear_mask, flush ? 0 : (uint32_t)exu2id.clear_mask, "a resolved branch is announced one cycle later unless flushed");
  if (!flush && exu2id.mispred) { v_eq(idu.br_latch.br_id, exu2id.br_id, "the announced branch is the resolved one"); v_eq(idu.br_latch.redirect_rob_idx, exu2id.redirect_rob_idx, "the announced branch is the resolved one"); }
}
extern "C" void announce() {
  start(1);
  v_is<bool>(dec_bcast.mispred, latch0.mispred, "a misprediction is announced"); v_is<uint32_t>(dec_bcast.clear_mask, (uint32_t)latch0.clear_mask, "resolved tags are announced");
  v_is<uint32_t>(dec_bcast.br_mask, latch0.mispred ? bit(latch0.br_id) : 0, "the squash names exactly the mispredicted branch");
  if (latch0.mispred) { v_eq(dec_bcast.br_id, latch0.br_id, "the squash names exactly the mispredicted branch"); v_eq(dec_bcast.redirect_rob_idx, latch0.redirect_rob_idx, "the squash names exactly the mispredicted branch"); }
}
extern "C" void reset() {
  v_in(idu.tag_vec, "t"); v_in(idu.br_latch, "l"); v_in(idu.br_mask_cp, "cp"); v_in(idu.now_br_mask, "n"); idu.init();
  for (int t = 0; t < MAX_BR_NUM; t++) V_REQUIRE(idu.tag_vec[t] == (t != 0), "at reset every tag but zero is free");
  V_REQUIRE(idu.now_br_mask == 0 && !idu.br_latch.mispred && idu.br_latch.clear_mask == 0, "at reset no branch is unresolved");
}
