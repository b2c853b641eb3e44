// P10: page-table walks.
// ENTRY: walker 14
// ENTRY: block 20
// ENTRY: stale 8
// ENTRY: kernel 10
// ENTRY: visible 10
// ENTRY: glue
#include "vh.h"
#include "sv32.h"
#include "MemSubSystem/PtwWalker.cpp"
#include "MemSubSystem/include/MemPtwBlock.h"
// ---- the walker with its own memory port
struct Port : PtwMemPort {
  bool ready, have; uint32_t data, addr; int sent, taken;
  bool send_read_req(uint32_t a) override { addr = a; sent++; return ready; }
  bool resp_valid() const override { return have; }
  uint32_t resp_data() const override { return data; }
  void consume_resp() override { taken++; }
};
extern "C" void walker(int part) {
  int s = part % 7; bool live = part / 7;
  static Port p; p.ready = v_any<bool>("ready"); p.have = v_any<bool>("have"); p.data = v_any<uint32_t>("data"); p.sent = p.taken = 0; p.addr = 0;
  static PtwWalker w(&p);
  uint32_t va = v_any<uint32_t>("va"), satp = v_any<uint32_t>("satp"), l1 = v_any<uint32_t>("l1");
  typedef PtwWalker::State S;
  w.state = (S)s; w.req_v_addr = va; w.req_satp = satp; w.l1_pte = l1; w.leaf_pte_reg = v_any<uint32_t>("leaf"); w.leaf_level_reg = v_any<uint8_t>("level");
  if (live) {   // requests and flushes
    uint32_t va2 = v_any<uint32_t>("va2"), satp2 = v_any<uint32_t>("satp2");
    bool ok = w.start(va2, satp2);
    v_is<bool>(ok, s == 0, "a walk starts exactly when none is in progress");
    v_is<uint32_t>(w.req_v_addr, s == 0 ? va2 : va, "a walk in progress keeps its address"); v_is<uint32_t>(w.req_satp, s == 0 ? satp2 : satp, "a walk in progress keeps its address space");
    V_REQUIRE(w.state == (s == 0 ? S::L1_REQ : (S)s), "a walk starts at level one");
    w.flush(); V_REQUIRE(!w.busy(), "a flushed walk is gone"); V_REQUIRE(w.tick() == S::IDLE && p.sent == 0 && p.taken == 0, "a flushed walk reads nothing and takes no answer");
    return;
  }
  S n = w.tick();
  if ((S)s == S::IDLE || (S)s == S::DONE || (S)s == S::FAULT) { V_REQUIRE(n == (S)s && p.sent == 0 && p.taken == 0, "an idle or finished walk does nothing"); return; }
  if ((S)s == S::L1_REQ || (S)s == S::L2_REQ) {
    bool one = (S)s == S::L1_REQ;
    V_REQUIRE(p.sent == 1 && p.taken == 0, "a waiting step sends its read");
    v_is<uint32_t>(p.addr, one ? sv32::l1_addr(satp, va) : sv32::l2_addr(l1, va), "the page-table entry read is the one selected by the root or pointer and the page bits");
    V_REQUIRE(n == (p.ready ? (one ? S::L1_RESP : S::L2_RESP) : (S)s), "the step waits for its answer once the read is accepted");
    v_is<uint32_t>(w.l1_pte, l1, "the pointer entry is kept");
    return;
  }
  bool one = (S)s == S::L1_RESP; uint32_t e = p.data;
  bool fault = sv32::bad(e) || (one ? sv32::leaf(e) && sv32::misaligned(e) : !sv32::leaf(e));
  S want = !p.have ? (S)s : fault ? S::FAULT : sv32::leaf(e) ? S::DONE : S::L2_REQ;
  V_REQUIRE(n == want, "the answer ends the walk as a leaf, a fault, or leads to the next level");
  V_REQUIRE(w.state == n, "the state reported is the state held");
  v_is<int>(p.taken, p.have ? 1 : 0, "the answer is taken once"); v_is<int>(p.sent, 0, "no read is sent while waiting");
  if (want == S::DONE) { v_is<uint32_t>(w.leaf_pte(), e, "the leaf returned is the entry read"); v_is<uint32_t>(w.leaf_level(), one ? 1 : 0, "the leaf is returned with its level"); }
  if (want == S::L2_REQ) v_is<uint32_t>(w.l1_pte, e, "the pointer entry is kept");
  v_is<uint32_t>(w.req_v_addr, va, "a walk in progress keeps its address"); v_is<uint32_t>(w.req_satp, satp, "a walk in progress keeps its address space");
}
// ---- the shared walker
typedef MemPtwBlock B; typedef B::WalkState W;
static bool waits(W s) { return s == W::L1_WAIT_RESP || s == W::L2_WAIT_RESP; }
// one consistent state: the owner has a request in flight exactly while a walk is active
static void any_walk(B::State &q, int s, int own) {
  v_in(q, "q");
  q.walk_state = (W)s; q.walk_active = s != 0; q.walk_owner = (B::Client)own;
  q.walk_rr_next = v_any<bool>("rr") ? B::Client::ITLB : B::Client::DTLB;
  q.walk_req_id_valid = waits((W)s) && q.walk_req_id_valid;
  if (!q.walk_req_id_valid) q.walk_req_id = 0;
  q.walk_drop_resp_credit = v_any<uint8_t>("drop") & 1;
  for (int i = 0; i < 2; i++) {
    q.walk_clients[i].req_inflight = s && i == own; if (s && i == own) q.walk_clients[i].req_pending = false;
    if (q.mem_clients[i].req_inflight) q.mem_clients[i].req_pending = false;
  }
}
static void any_ports(B::PortIn &in) { v_in(in, "in"); }
static void any_feedback(B::FeedbackIn &fb, const B::State &q) {
  v_in(fb, "fb");
  fb.grant_owner = (B::GrantOwner)(v_any<uint8_t>("gowner") & 3); fb.event_count = 2;
  for (int i = 0; i < 2; i++) { fb.events[i].owner = (B::RoutedEventOwner)(v_any<uint8_t>(v_name("eowner", i)) & 3); fb.events[i].replay &= 3; 
    size_t id = fb.events[i].req_id, one = v_any<bool>(v_name("idbit", i)); fb.events[i].req_id = q.walk_req_id ^ one; (void)id; }
}
// what one cycle must do to the walk of client `own`, written from the property
struct Spec {
  B::State q;
  static uint32_t read(const B::State &q) { const auto &r = q.walk_clients[(int)q.walk_owner].req; return q.walk_state == W::L1_REQ ? sv32::l1_addr(r.satp, r.vaddr) : sv32::l2_addr(q.walk_l1_pte, r.vaddr); }
  void begin(const B::PortIn &in) {
    for (int i = 0; i < 2; i++) {
      auto &m = q.mem_clients[i]; if (in.mem_clients[i].resp_consumed || in.mem_clients[i].req_valid) m.resp_valid = false;
      if (in.mem_clients[i].req_valid && !m.req_pending && !m.req_inflight) { m.req_pending = true; m.req_addr = in.mem_clients[i].req_addr; }
      auto &w = q.walk_clients[i]; if (in.walk_clients[i].resp_consumed || in.walk_clients[i].req_valid) w.resp_valid = false;
      if (in.walk_clients[i].req_valid && !w.req_pending && !w.req_inflight) { w.req_pending = true; w.req = in.walk_clients[i].req; }
    }
    if (q.walk_state != W::IDLE) return;
    int a = q.walk_rr_next == B::Client::ITLB ? 1 : 0;
    for (int k = 0; k < 2; k++) {
      int i = k ? 1 - a : a;
      if (q.walk_state == W::IDLE && q.walk_clients[i].req_pending) {
        q.walk_clients[i].req_pending = false; q.walk_clients[i].req_inflight = true; q.walk_owner = (B::Client)i; q.walk_active = true; q.walk_state = W::L1_REQ; q.walk_rr_next = (B::Client)(1 - i); q.walk_l1_pte = 0;
      }
    }
  }
  void grant(const B::FeedbackIn &fb) {
    if (!fb.grant_valid) return;
    for (int i = 0; i < 2; i++) if (fb.grant_owner == (i ? B::GrantOwner::MEM_ITLB : B::GrantOwner::MEM_DTLB)) { q.mem_clients[i].req_pending = false; q.mem_clients[i].req_inflight = true; }
    if (fb.grant_owner == B::GrantOwner::WALK) {
      q.walk_state = q.walk_state == W::L1_REQ ? W::L1_WAIT_RESP : q.walk_state == W::L2_REQ ? W::L2_WAIT_RESP : q.walk_state;
      q.walk_req_id_valid = true; q.walk_req_id = fb.grant_req_id;
    }
  }
  void done(const B::RoutedEvent &e, bool fault, uint8_t level) {
    for (int i = 0; i < 2; i++) if ((int)q.walk_owner == i) {
      auto &w = q.walk_clients[i]; w.req_inflight = false; w.resp_valid = true; w.resp.fault = fault; w.resp.vaddr = w.req.vaddr; w.resp.leaf_pte = fault ? 0 : e.data; w.resp.leaf_level = fault ? 0 : level; }
    q.walk_active = false; q.walk_state = W::IDLE; q.walk_req_id_valid = false; q.walk_req_id = 0;
  }
  void event(const B::RoutedEvent &e) {
    if (!e.valid) return;
    for (int i = 0; i < 2; i++) if (e.owner == (i ? B::RoutedEventOwner::MEM_ITLB : B::RoutedEventOwner::MEM_DTLB) && e.replay == 0) { q.mem_clients[i].resp_valid = true; q.mem_clients[i].resp_data = e.data; q.mem_clients[i].req_inflight = false; }
    if (e.owner != B::RoutedEventOwner::WALK) return;
    bool mine = q.walk_active && q.walk_req_id_valid && q.walk_req_id == e.req_id;
    if (!mine) { if (q.walk_drop_resp_credit) q.walk_drop_resp_credit--; return; }
    if (e.replay) {
      if (e.replay == 2) q.walk_state = q.walk_state == W::L1_WAIT_RESP ? W::L1_REQ : W::L2_REQ;
      q.walk_req_id_valid = false; q.walk_req_id = 0; return;
    }
    if (q.walk_state == W::L1_WAIT_RESP) {
      if (sv32::bad(e.data)) done(e, true, 0); else if (sv32::leaf(e.data)) { if (sv32::misaligned(e.data)) done(e, true, 0); else done(e, false, 1); }
      else { q.walk_l1_pte = e.data; q.walk_state = W::L2_REQ; q.walk_req_id_valid = false; q.walk_req_id = 0; }
    } else { if (sv32::bad(e.data) || !sv32::leaf(e.data)) done(e, true, 0); else done(e, false, 0); }
  }
  void wake(const B::FeedbackIn &fb) {
    for (int i = 0; i < 2; i++) if ((i ? fb.wakeup_itlb : fb.wakeup_dtlb) && q.mem_clients[i].req_inflight) { q.mem_clients[i].req_inflight = false; q.mem_clients[i].req_pending = true; }
    if (fb.wakeup_walk && q.walk_active) { q.walk_state = q.walk_state == W::L1_WAIT_RESP ? W::L1_REQ : q.walk_state == W::L2_WAIT_RESP ? W::L2_REQ : q.walk_state; q.walk_req_id_valid = false; q.walk_req_id = 0; }
  }
  void flush(int i) {
    q.walk_clients[i].req_pending = q.walk_clients[i].req_inflight = q.walk_clients[i].resp_valid = false;
    if (q.walk_active && (int)q.walk_owner == i) { if (waits(q.walk_state)) q.walk_drop_resp_credit++; q.walk_active = false; q.walk_state = W::IDLE; q.walk_l1_pte = 0; q.walk_req_id_valid = false; q.walk_req_id = 0; }
  }
};
static void same(const B::State &a, const B::State &b, const char *when) {
  v_eq(a.walk_state, b.walk_state, v_rule("the walk proceeds level by level and waits for its own answer", when));
  v_eq(a.walk_active, b.walk_active, v_rule("a walk is active until it ends or is flushed", when));
  if (b.walk_active) v_eq(a.walk_owner, b.walk_owner, v_rule("the walk belongs to the client that asked", when));
  if (b.walk_active) v_eq(a.walk_l1_pte, b.walk_l1_pte, v_rule("the pointer entry is kept", when));
  v_eq(a.walk_rr_next, b.walk_rr_next, v_rule("clients take turns", when));
  v_eq(a.walk_req_id_valid, b.walk_req_id_valid, v_rule("only the read of the current step is awaited", when));
  if (b.walk_req_id_valid) v_eq(a.walk_req_id, b.walk_req_id, v_rule("only the read of the current step is awaited", when));
  v_eq(a.walk_drop_resp_credit, b.walk_drop_resp_credit, v_rule("answers to abandoned reads are counted", when));
  for (int i = 0; i < 2; i++) {
    const auto &x = a.walk_clients[i], &y = b.walk_clients[i];
    v_eq(x.req_pending, y.req_pending, v_rule("a walk request waits until it is served", when));
    v_eq(x.req_inflight, y.req_inflight, v_rule("a walk request is in flight while its walk is active", when));
    if (y.req_pending || y.req_inflight) { v_eq(x.req.vaddr, y.req.vaddr, v_rule("a walk keeps the address asked for", when)); v_eq(x.req.satp, y.req.satp, v_rule("a walk keeps the address space asked for", when)); }
    v_eq(x.resp_valid, y.resp_valid, v_rule("a result is delivered exactly when the walk ends", when));
    if (y.resp_valid) { v_eq(x.resp.fault, y.resp.fault, v_rule("malformed entries and misaligned large pages fault", when)); v_eq(x.resp.vaddr, y.resp.vaddr, v_rule("the result is for the address asked for", when));
      v_eq(x.resp.leaf_pte, y.resp.leaf_pte, v_rule("the leaf is the entry read", when)); v_eq(x.resp.leaf_level, y.resp.leaf_level, v_rule("the leaf is returned with its level", when)); }
    const auto &m = a.mem_clients[i], &n = b.mem_clients[i];
    v_eq(m.req_pending, n.req_pending, v_rule("a table read waits until it is granted", when)); v_eq(m.req_inflight, n.req_inflight, v_rule("a table read is in flight until answered", when));
    if (n.req_pending || n.req_inflight) v_eq(m.req_addr, n.req_addr, v_rule("a table read keeps its address", when));
    v_eq(m.resp_valid, n.resp_valid, v_rule("a table read is answered once", when)); if (n.resp_valid) v_eq(m.resp_data, n.resp_data, v_rule("a table read returns the word read", when));
  }
}
static void outputs(const B::CombOut &o, const B::State &q, const char *when) {
  bool rd = q.walk_active && (q.walk_state == W::L1_REQ || q.walk_state == W::L2_REQ);
  v_is<bool>(o.issue_walk_read, rd, v_rule("a read is requested exactly while a step has not been accepted", when));
  if (rd) v_is<uint32_t>(o.walk_read_addr, Spec::read(q), v_rule("the page-table entry read is the one selected by the root or pointer and the page bits", when));
  for (int i = 0; i < 2; i++) {
    v_is<bool>(o.walk_clients[i].req_ready, !q.walk_clients[i].req_pending && !q.walk_clients[i].req_inflight, v_rule("a client may ask when it has no walk", when));
    v_is<bool>(o.walk_clients[i].resp_valid, q.walk_clients[i].resp_valid, v_rule("results go to the client that asked", when));
    if (q.walk_clients[i].resp_valid) { v_eq(o.walk_clients[i].resp.fault, q.walk_clients[i].resp.fault, v_rule("the result is reported", when)); v_eq(o.walk_clients[i].resp.leaf_pte, q.walk_clients[i].resp.leaf_pte, v_rule("the result is reported", when)); v_eq(o.walk_clients[i].resp.leaf_level, q.walk_clients[i].resp.leaf_level, v_rule("the result is reported", when)); v_eq(o.walk_clients[i].resp.vaddr, q.walk_clients[i].resp.vaddr, v_rule("the result is reported", when)); }
    v_is<bool>(o.mem_clients[i].req_ready, !q.mem_clients[i].req_pending && !q.mem_clients[i].req_inflight, v_rule("a client may read when it has no read", when));
    v_is<bool>(o.mem_clients[i].resp_valid, q.mem_clients[i].resp_valid, v_rule("words read go to the client that asked", when)); if (q.mem_clients[i].resp_valid) v_is<uint32_t>(o.mem_clients[i].resp_data, q.mem_clients[i].resp_data, v_rule("words read go to the client that asked", when));
    v_is<bool>(o.mem_req_pending[i], q.mem_clients[i].req_pending, v_rule("a table read is offered until granted", when)); if (q.mem_clients[i].req_pending) v_is<uint32_t>(o.mem_req_addr[i], q.mem_clients[i].req_addr, v_rule("a table read is offered at its address", when));
  }
}
static B blk(nullptr);
extern "C" void block(int part) {
  int s = part % 5, own = part / 5 % 2, two = part / 10;
  static Spec z; any_walk(z.q, s, own); blk.cur_ = z.q; blk.nxt_ = z.q;
  static B::PortIn in; any_ports(in); static B::FeedbackIn fb; any_feedback(fb, z.q);
  if (two) fb.grant_valid = false; else fb.event_count = 1;
  if (!two && fb.grant_owner == B::GrantOwner::WALK && fb.events[0].owner == B::RoutedEventOwner::WALK) fb.grant_valid = false;   // a read and its answer are in different cycles
  // a walk grant only answers a requested read
  blk.comb_begin(in); z.begin(in);
  if (!(z.q.walk_state == W::L1_REQ || z.q.walk_state == W::L2_REQ) && fb.grant_owner == B::GrantOwner::WALK) fb.grant_valid = false;
  outputs(blk.comb_outputs(), z.q, "before memory feedback");
  blk.comb_finish(fb); z.grant(fb); for (int i = 0; i < fb.event_count; i++) z.event(fb.events[i]); z.wake(fb);
  outputs(blk.comb_outputs(), z.q, "after memory feedback");
  static B::SeqIn sq; v_in(sq, "sq"); blk.seq(sq); for (int i = 0; i < 2; i++) if (sq.walk_client_flush[i]) z.flush(i);
  same(blk.cur_, z.q, "next state"); outputs(blk.comb_outputs(), z.q, "next state");
}
// an answer to an abandoned or foreign read leaves the walk exactly as it was
extern "C" void stale(int part) {
  int s = 1 + part % 4, own = part / 4;
  static B::State q; any_walk(q, s, own); q.walk_drop_resp_credit = v_any<uint8_t>("drop"); blk.cur_ = q; blk.nxt_ = q;
  static B::PortIn in; static B::FeedbackIn fb; fb.event_count = 1; v_in(fb.events[0], "e"); fb.events[0].owner = B::RoutedEventOwner::WALK; fb.events[0].req_id = q.walk_req_id ^ 1;
  blk.comb_begin(in); blk.comb_finish(fb); blk.seq();
  v_eq(blk.cur_.walk_state, q.walk_state, "a foreign answer never changes the walk"); v_eq(blk.cur_.walk_active, q.walk_active, "a foreign answer never changes the walk"); v_eq(blk.cur_.walk_l1_pte, q.walk_l1_pte, "a foreign answer never changes the walk");
  v_eq(blk.cur_.walk_req_id_valid, q.walk_req_id_valid, "a foreign answer never changes the walk"); v_eq(blk.cur_.walk_req_id, q.walk_req_id, "a foreign answer never changes the walk");
  for (int i = 0; i < 2; i++) { v_eq(blk.cur_.walk_clients[i].resp_valid, q.walk_clients[i].resp_valid, "a foreign answer produces no result"); v_eq(blk.cur_.walk_clients[i].req_inflight, q.walk_clients[i].req_inflight, "a foreign answer produces no result"); }
  static B::SeqIn sq; sq.walk_client_flush[own] = true; blk.seq(sq);
  V_REQUIRE(!blk.cur_.walk_active && !blk.cur_.walk_clients[own].resp_valid && !blk.comb_outputs().issue_walk_read, "a flushed walk delivers no result and reads nothing");
}
// ---- the packed form of the shared walker
static bool pi[PTW_COMPACT_CORE_KERNEL_PI_WIDTH], po[PTW_COMPACT_CORE_KERNEL_PO_WIDTH], po2[PTW_COMPACT_CORE_KERNEL_PO_WIDTH];
extern "C" void kernel(int part) {
  int s = part % 5, own = part / 5;
  v_in(pi, "pi"); static B::State q; any_walk(q, s, own);
  bool st[B::kPackedPoWidth]; B::encode_packed_output(st, q, B::CombOut{}); for (int i = 0; i < B::kPackedStateWidth; i++) pi[i] = st[i];
  B::PortIn in; B::SeqIn sq; B::FeedbackIn fb; static B::State r; B::decode_packed_input(pi, r, in, sq, fb);
  // packing and unpacking a state keeps every part of it that matters
  V_REQUIRE(r.walk_state == q.walk_state && r.walk_active == q.walk_active && (!q.walk_active || r.walk_owner == q.walk_owner) && r.walk_rr_next == q.walk_rr_next, "a packed walk keeps its step and its owner");
  v_is<uint32_t>(r.walk_l1_pte >> 10, q.walk_l1_pte >> 10, "a packed walk keeps its pointer entry");
  for (int i = 0; i < 2; i++) {
    v_eq(r.walk_clients[i].req_pending, q.walk_clients[i].req_pending, "a packed walk keeps its requests"); v_eq(r.walk_clients[i].req_inflight, q.walk_clients[i].req_inflight, "a packed walk keeps its requests");
    v_is<uint32_t>(r.walk_clients[i].req.vaddr >> 12, q.walk_clients[i].req.vaddr >> 12, "a packed walk keeps its page"); v_is<uint32_t>(r.walk_clients[i].req.satp & 0x3fffff, q.walk_clients[i].req.satp & 0x3fffff, "a packed walk keeps its root");
    v_eq(r.walk_clients[i].resp_valid, q.walk_clients[i].resp_valid, "a packed walk keeps its result"); v_eq(r.walk_clients[i].resp.fault, q.walk_clients[i].resp.fault, "a packed walk keeps its result");
    v_is<uint32_t>(r.walk_clients[i].resp.leaf_pte, q.walk_clients[i].resp.leaf_pte & ~0x300u, "a packed walk keeps its leaf"); v_is<uint32_t>(r.walk_clients[i].resp.leaf_level & 1, q.walk_clients[i].resp.leaf_level & 1, "a packed walk keeps its level");
    v_is<uint32_t>(r.mem_clients[i].req_addr, q.mem_clients[i].req_addr & ~3u, "a packed read keeps its address"); v_is<uint32_t>(r.mem_clients[i].resp_data, q.mem_clients[i].resp_data & ~0x300u, "a packed read keeps its word");
  }
  static B::State d; B::compact_core_comb(r, in, sq, fb, d); B::encode_packed_output(po2, d, B::CombOut{});
  ptw_compact_core_kernel_eval(pi, po);
  for (int i = 0; i < B::kPackedStateWidth; i++) v_is<bool>(po[i], po2[i], v_name("the packed walker takes the same step as the shared walker: bit ", i));
  V_REQUIRE(!d.walk_active || d.walk_clients[(int)d.walk_owner].req_inflight, "an active walk keeps the request of its owner in flight");
}
extern "C" void visible(int part) {
  int s = part % 5, own = part / 5;
  static B::State q; any_walk(q, s, own); static bool st[B::kPackedPoWidth]; B::encode_packed_output(st, q, B::CombOut{});
  static B::State r; B::decode_packed_state(st, r); B::CombOut o; B::project_outputs_from_state(r, o);
  static bool a[B::kCorePortOutWidth], b[B::kCorePortOutWidth]; B::encode_core_port_output(a, o); ptw_compact_core_visible_kernel(st, b);
  for (int i = 0; i < B::kCorePortOutWidth; i++) v_is<bool>(b[i], a[i], v_name("the packed walker shows the same outputs as the shared walker: bit ", i));
}
extern "C" void glue() {
  static bool x[B::kTopGluePiWidth], y[B::kTopGluePoWidth], c[B::kCorePortInWidth]; v_in(x, "x");
  ptw_top_glue_kernel(x, y); B::encode_core_port_input_from_top_external(c, x);
  for (int i = 0; i < B::kCorePortInWidth; i++) v_is<bool>(y[i], c[i], v_name("the packed interface forwards each request: bit ", i));
  for (int i = 0; i < B::kTopExternalOutputWidth; i++) v_is<bool>(y[B::kTopGlueExternalOutBase + i], x[B::kTopGlueCoreOutBase + i], v_name("the packed interface forwards each result: bit ", i));
}
