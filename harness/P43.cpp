// P43: next-address choice, histories, return stack and training of the branch predictor.
// ENTRY: choose 32
// ENTRY: speculate 32
// ENTRY: retire 24
// ENTRY: train 80
// ENTRY: together 64
// FLAGS: -I$VERIF/harness/stubcpu -DTWO_AHEAD_TABLE_SIZE=64
#include "vh.h"
#include "front-end/BPU/BPU.h"
BPU_TOP *g_bpu_top;
typedef BPU_TOP::InputPayload In; typedef BPU_TOP::OutputPayload Out; typedef BPU_TOP::QueueEntry Entry;
namespace {
const int W = FETCH_WIDTH, N = COMMIT_WIDTH, B = BPU_BANK_NUM;
BPU_TOP *top; In in; Out out; BPU_TOP::ReadData rd; BPU_TOP::UpdateRequest req;
TAGE_TOP::InputPayload dir_in[B]; TAGE_TOP::OutputPayload dir_out[B]; BTB_TOP::InputPayload tgt_in[B]; BTB_TOP::OutputPayload tgt_out[B]; TypePredictor::InputPayload kind_in; TypePredictor::OutputPayload kind_out;
void nothing() {}
void dir_calc(TAGE_TOP *t, const TAGE_TOP::InputPayload &i, TAGE_TOP::ReadData &, TAGE_TOP::OutputPayload &o, TAGE_TOP::CombResult &) { for (int b = 0; b < B; b++) if (top->tage_inst[b] == t) { dir_in[b] = i; dir_out[b].tage_pred_out_valid = i.pred_req; o = dir_out[b]; } }
void tgt_calc(BTB_TOP *t, const BTB_TOP::InputPayload &i, BTB_TOP::ReadData &, BTB_TOP::OutputPayload &o, BTB_TOP::CombResult &) { for (int b = 0; b < B; b++) if (top->btb_inst[b] == t) { tgt_in[b] = i; tgt_out[b].btb_pred_out_valid = i.pred_req; o = tgt_out[b]; } }
void kind_calc(TypePredictor *, const TypePredictor::InputPayload &i, TypePredictor::ReadData &, TypePredictor::OutputPayload &o, TypePredictor::CombResult &) { kind_in = i; o = kind_out; }
void start() {
  __v_noexit(1);
  for (const char *f : {"TAGE_TOP::reset", "BTB_TOP::reset", "TypePredictor::reset", "TAGE_TOP::tage_seq_read", "BTB_TOP::btb_seq_read", "TypePredictor::type_pred_seq_read", "TAGE_TOP::tage_seq_write", "BTB_TOP::btb_seq_write", "TypePredictor::type_pred_seq_write"}) __v_model(f, (void *)nothing);
  __v_model("TAGE_TOP::tage_comb_calc", (void *)dir_calc); __v_model("BTB_TOP::btb_comb_calc", (void *)tgt_calc); __v_model("TypePredictor::type_pred_comb_calc", (void *)kind_calc);
  top = new BPU_TOP;
  v_in(dir_out, "direction"); v_in(tgt_out, "target"); v_in(kind_out, "kind"); for (int i = 0; i < W; i++) V_ASSUME(kind_out.pred_type[i] <= BR_JAL);
  v_in(in, "in"); in.refetch = false; in.icache_read_ready = false; for (int i = 0; i < N; i++) in.in_upd_valid[i] = false;
}
bool fold_bit(const wire1_t *h, int n, int len, int j) { bool x = false; for (int i = j; i < n; i += len) x ^= h[i]; return x; }
uint32_t fold(const wire1_t *h, int n, int len) { uint32_t x = 0; for (int j = 0; j < len; j++) x |= (uint32_t)fold_bit(h, n, len, j) << j; return x; }
// a history with the foldings that belong to it
void history(wire1_t (&g)[GHR_LENGTH], wire32_t (&f)[FH_N_MAX][TN_MAX], const char *name) { v_in(g, name); for (int k = 0; k < FH_N_MAX; k++) for (int t = 0; t < TN_MAX; t++) f[k][t] = fold(g, top->ghr_length[t], top->fh_length[k][t]); }
void folded(const wire1_t (&g)[GHR_LENGTH], const wire32_t (&f)[FH_N_MAX][TN_MAX], const char *rule) { for (int k = 0; k < FH_N_MAX; k++) for (int t = 0; t < TN_MAX; t++) for (uint32_t j = 0; j < 32; j++) v_is<bool>(f[k][t] >> j & 1, j < top->fh_length[k][t] ? fold_bit(g, top->ghr_length[t], top->fh_length[k][t], j) : false, rule); }
void step() { __v_noexit(1); top->bpu_seq_read(in, rd); top->bpu_comb_calc(in, rd, out, req); top->bpu_seq_write(in, req, false); }
struct Hist { wire1_t g[GHR_LENGTH]; };
void shift(Hist &h, bool when, bool bit) { for (int i = GHR_LENGTH - 1; i > 0; i--) h.g[i] = when ? h.g[i - 1] : h.g[i]; h.g[0] = when ? bit : h.g[0]; }
struct Ras { uint32_t a[RAS_DEPTH]; int n; };
Ras pushed(Ras r, uint32_t v) { if (r.n == RAS_DEPTH) { for (int i = 0; i + 1 < RAS_DEPTH; i++) r.a[i] = r.a[i + 1]; r.a[RAS_DEPTH - 1] = v; } else r.a[r.n++] = v; return r; }
Ras popped(Ras r) { if (r.n) r.n--; return r; }
bool always(int k) { return k == BR_CALL || k == BR_RET || k == BR_IDIRECT || k == BR_JAL; }
const int depths[4] = {0, 1, RAS_DEPTH - 1, RAS_DEPTH};
uint32_t place(int part) { return 0x80000000u + ICACHE_LINE_SIZE * 37 + part % 16 * 4; }
int slots(uint32_t pc) { int n = (ICACHE_LINE_SIZE - pc % ICACHE_LINE_SIZE) / 4; return n < W ? n : W; }
void ras_is(const target_addr_t *a, int n, const Ras &want, bool when, const char *rule) { v_is<bool>(when && n != want.n, false, rule); for (int i = 0; i < want.n; i++) v_is<uint32_t>(when ? a[i] : 0, when ? want.a[i] : 0, rule); }
// one prediction at the given address with unknown predictor answers
void predict(uint32_t pc, bool redirect, int depth) {
  start(); history(top->Spec_GHR, top->Spec_FH, "speculative"); history(top->Arch_GHR, top->Arch_FH, "retired");
  v_in(top->Spec_PATH, "speculative_path"); v_in(top->Arch_PATH, "retired_path"); v_in(top->Spec_ras_stack, "speculative_stack"); v_in(top->Arch_ras_stack, "retired_stack"); top->Spec_ras_count = depth; top->Arch_ras_count = depth;
  in.refetch = redirect; if (redirect) { in.refetch_address = pc; v_in(top->pc_reg, "address"); } else top->pc_reg = pc;
  in.icache_read_ready = v_any<bool>("ready");
}
bool taken_at(int i, uint32_t pc) { int b = (pc / 4 + i) % B, k = kind_out.pred_type[i]; return always(k) || (k == BR_DIRECT && dir_out[b].pred_out); }
}
extern "C" void choose(int part) {
  uint32_t pc = place(part); bool redirect = part / 16; int depth = depths[part % 4]; predict(pc, redirect, depth); bool ready = in.icache_read_ready, fire = ready || redirect; int n = slots(pc);
  const target_addr_t *stack = redirect ? top->Arch_ras_stack : top->Spec_ras_stack; uint32_t back = depth ? stack[depth - 1] : 0; uint32_t old = top->pc_reg;
  Hist g; for (int i = 0; i < GHR_LENGTH; i++) g.g[i] = top->Spec_GHR[i]; wire32_t f[FH_N_MAX][TN_MAX]; for (int k = 0; k < FH_N_MAX; k++) for (int t = 0; t < TN_MAX; t++) f[k][t] = top->Spec_FH[k][t]; uint32_t path = top->Spec_PATH;
  step();
  uint32_t next = pc + 4 * n;
  for (int i = n - 1; i >= 0; i--) { int b = (pc / 4 + i) % B; uint32_t to = kind_out.pred_type[i] == BR_RET && depth ? back : tgt_out[b].pred_target; if (taken_at(i, pc)) next = to; }
  v_is<uint32_t>(out.fetch_address, pc, "the address fetched is the redirect's, or the one predicted before"); v_is<uint32_t>(out.out_pred_base_pc, pc, "the recorded group address is the one fetched"); v_is<bool>(out.icache_read_valid, !redirect, "an address is offered unless a redirect replaces it");
  v_is<bool>(out.PTAB_write_enable, ready && !redirect, "a prediction is recorded for each address taken"); v_is<uint32_t>(fire ? out.predict_next_fetch_address : 0, fire ? next : 0, "the predicted next address follows the first taken slot, or the group");
  v_is<uint32_t>(top->pc_reg, redirect ? pc : ready ? next : old, "the next address fetched is the redirect's, the predicted one, or unchanged"); v_is<bool>(top->pc_can_send_to_icache, true, "fetching goes on");
  for (int i = 0; i < W; i++) {
    int b = (pc / 4 + i) % B; bool used = i < n; v_is<bool>(fire && out.out_pred_dir[i], fire && used && taken_at(i, pc), "a slot's recorded direction is its prediction"); if (!used) continue;
    const TAGE_TOP::OutputPayload &d = dir_out[b]; const char *r = "a slot's recorded prediction data are those of its own prediction";
    v_is<bool>(fire && out.out_alt_pred[i], fire && d.alt_pred_out, r); v_is<uint32_t>(fire ? out.out_pcpn[i] : 0, fire ? d.pcpn_out : 0, r); v_is<uint32_t>(fire ? out.out_altpcpn[i] : 0, fire ? d.altpcpn_out : 0, r);
    for (int t = 0; t < TN_MAX; t++) { v_is<uint32_t>(fire ? out.out_tage_tags[i][t] : 0, fire ? d.tage_tag_flat_out[t] : 0, r); v_is<uint32_t>(fire ? out.out_tage_idxs[i][t] : 0, fire ? d.tage_idx_flat_out[t] : 0, r); }
    v_is<bool>(fire && out.out_sc_used[i], fire && d.sc_used_out, r); v_is<bool>(fire && out.out_sc_pred[i], fire && d.sc_pred_out, r); v_is<uint32_t>(fire ? out.out_sc_sum[i] : 0, fire ? d.sc_sum_out : 0, r); for (int t = 0; t < BPU_SCL_META_NTABLE; t++) v_is<uint32_t>(fire ? out.out_sc_idx[i][t] : 0, fire ? d.sc_idx_out[t] : 0, r);
    v_is<bool>(fire && out.out_loop_used[i], fire && d.loop_used_out, r); v_is<bool>(fire && out.out_loop_hit[i], fire && d.loop_hit_out, r); v_is<bool>(fire && out.out_loop_pred[i], fire && d.loop_pred_out, r); v_is<uint32_t>(fire ? out.out_loop_idx[i] : 0, fire ? d.loop_idx_out : 0, r); v_is<uint32_t>(fire ? out.out_loop_tag[i] : 0, fire ? d.loop_tag_out : 0, r);
    v_is<bool>(kind_in.pred_valid[i], fire, "every slot of the group is looked up"); v_is<uint32_t>(fire ? kind_in.pred_pc[i] : 0, fire ? pc + 4 * i : 0, "a slot is looked up at its own address");
    v_is<bool>(dir_in[b].pred_req, fire, "every slot of the group is looked up"); v_is<bool>(tgt_in[b].pred_req, fire, "every slot of the group is looked up"); v_is<uint32_t>(fire ? tgt_in[b].pred_type_in : 0, fire ? kind_out.pred_type[i] : 0, "a slot's target is looked up for its own kind");
  }
  if (!redirect) for (int b = 0; b < B; b++) { const char *r = "directions are predicted from the speculative history"; for (int i = 0; i < GHR_LENGTH; i++) v_is<bool>(dir_in[b].ghr_in[i], g.g[i], r); for (int k = 0; k < FH_N_MAX; k++) for (int t = 0; t < TN_MAX; t++) v_is<uint32_t>(dir_in[b].fh_in[k][t], f[k][t], r); v_is<uint32_t>(dir_in[b].path_in, path, r); }
}
extern "C" void speculate(int part) {
  uint32_t pc = place(part); int depth = depths[part / 16 + 2 * (part % 2)]; predict(pc, false, depth); bool ready = in.icache_read_ready; int n = slots(pc);
  Hist s, a; for (int i = 0; i < GHR_LENGTH; i++) { s.g[i] = top->Spec_GHR[i]; a.g[i] = top->Arch_GHR[i]; } Ras r0; r0.n = depth; for (int i = 0; i < RAS_DEPTH; i++) r0.a[i] = top->Spec_ras_stack[i];
  step();
  bool live = ready; for (int i = 0; i < n; i++) { bool t = taken_at(i, pc); shift(s, live && kind_out.pred_type[i] == BR_DIRECT, t); live = live && !t; }
  for (int i = 0; i < GHR_LENGTH; i++) { v_is<bool>(top->Spec_GHR[i], s.g[i], "the speculative history gains the direction of each branch up to the first taken one"); v_is<bool>(top->Arch_GHR[i], a.g[i], "predicting leaves the retired history alone"); }
  folded(top->Spec_GHR, top->Spec_FH, "a folded history is the folding of the history");
  const char *r = "a predicted call pushes its return address and a predicted return pops it"; live = ready;
  bool none = true; for (int i = 0; i < n; i++) { bool t = live && taken_at(i, pc); int k = kind_out.pred_type[i]; ras_is(top->Spec_ras_stack, top->Spec_ras_count, pushed(r0, pc + 4 * i + 4), t && k == BR_CALL, r); ras_is(top->Spec_ras_stack, top->Spec_ras_count, popped(r0), t && k == BR_RET, r); none = none && !(t && (k == BR_CALL || k == BR_RET)); live = live && !t; }
  ras_is(top->Spec_ras_stack, top->Spec_ras_count, r0, none, "other predictions leave the return stack alone");
}
extern "C" void retire(int part) {
  bool redirect = part & 1; predict(place(part), redirect, depths[part / 2 % 4]); in.icache_read_ready = false; int kind = part / 8; // 0: branches, 1: calls, 2: returns
  top->Spec_ras_count = 3; Hist a, s; for (int i = 0; i < GHR_LENGTH; i++) { a.g[i] = top->Arch_GHR[i]; s.g[i] = top->Spec_GHR[i]; } Ras r0; r0.n = top->Arch_ras_count; for (int i = 0; i < RAS_DEPTH; i++) r0.a[i] = top->Arch_ras_stack[i];
  bool wrong = false;
  for (int i = 0; i < N; i++) { in.in_upd_valid[i] = v_any<bool>(v_name("retired", i)); in.in_update_base_pc[i] = (v_any<uint32_t>(v_name("branch", i)) & ~0xfu) | (i + 1) * 4; V_ASSUME(in.in_actual_br_type[i] <= BR_JAL); wrong |= in.in_upd_valid[i] && in.in_actual_br_type[i] == BR_DIRECT && in.in_pred_dir[i] != in.in_actual_dir[i]; }
  if (kind) for (int i = 0; i < N; i++) { in.in_upd_valid[i] = true; in.in_actual_br_type[i] = kind == 1 ? BR_CALL : i ? BR_CALL : BR_RET; } // calls, a return and then a call
  Hist s0 = s; step();
  for (int i = 0; i < N; i++) shift(a, in.in_upd_valid[i] && in.in_actual_br_type[i] == BR_DIRECT, in.in_actual_dir[i]);
  for (int i = 0; i < GHR_LENGTH; i++) { v_is<bool>(top->Arch_GHR[i], a.g[i], "the retired history gains each retired branch's direction, in order"); if (redirect) v_is<bool>(top->Spec_GHR[i], a.g[i], "a redirect makes the speculative history the retired one"); else v_is<bool>(!wrong && top->Spec_GHR[i], !wrong && s0.g[i], "without a wrong prediction the speculative history stays"); }
  folded(top->Arch_GHR, top->Arch_FH, "a folded history is the folding of the history"); if (!redirect) folded(top->Spec_GHR, top->Spec_FH, "a folded history is the folding of the history");
  const char *r = "a redirect makes the speculative state the retired one";
  if (redirect) { for (int k = 0; k < FH_N_MAX; k++) for (int t = 0; t < TN_MAX; t++) v_is<uint32_t>(top->Spec_FH[k][t], top->Arch_FH[k][t], r); v_is<uint32_t>(top->Spec_PATH, top->Arch_PATH, r); v_is<uint32_t>(top->Spec_ras_count, top->Arch_ras_count, r); for (int i = 0; i < RAS_DEPTH; i++) v_is<uint32_t>(top->Spec_ras_stack[i], top->Arch_ras_stack[i], r); }
  else v_is<uint32_t>(top->Spec_ras_count, 3, "retirement leaves the speculative return stack alone");
  if (kind) { Ras w = r0; for (int i = 0; i < N; i++) w = kind == 1 || i ? pushed(w, in.in_update_base_pc[i] + 4) : popped(w); ras_is(top->Arch_ras_stack, top->Arch_ras_count, w, true, "a retired call pushes its return address and a retired return pops it"); }
  else { bool other = true; for (int i = 0; i < N; i++) other = other && !(in.in_upd_valid[i] && (in.in_actual_br_type[i] == BR_CALL || in.in_actual_br_type[i] == BR_RET)); ras_is(top->Arch_ras_stack, top->Arch_ras_count, r0, other, "other retired instructions leave the return stack alone"); }
}
// queue positions: first slot, last slot; how many wait
static void entry_is(const Entry &e, int i, bool when, const char *r) {
#define SAME(f, g) v_is<uint32_t>(when ? (uint32_t)e.f : 0, when ? (uint32_t)in.g : 0, r)
  SAME(base_pc, in_update_base_pc[i]); SAME(valid_mask, in_upd_valid[i]); SAME(actual_dir, in_actual_dir[i]); SAME(br_type, in_actual_br_type[i]); SAME(targets, in_actual_targets[i]); SAME(pred_dir, in_pred_dir[i]); SAME(alt_pred, in_alt_pred[i]); SAME(pcpn, in_pcpn[i]); SAME(altpcpn, in_altpcpn[i]);
  for (int t = 0; t < TN_MAX; t++) { SAME(tage_tags[t], in_tage_tags[i][t]); SAME(tage_idxs[t], in_tage_idxs[i][t]); } SAME(sc_used, in_sc_used[i]); SAME(sc_pred, in_sc_pred[i]); SAME(sc_sum, in_sc_sum[i]); for (int t = 0; t < BPU_SCL_META_NTABLE; t++) SAME(sc_idx[t], in_sc_idx[i][t]);
  SAME(loop_used, in_loop_used[i]); SAME(loop_hit, in_loop_hit[i]); SAME(loop_pred, in_loop_pred[i]); SAME(loop_idx, in_loop_idx[i]); SAME(loop_tag, in_loop_tag[i]);
#undef SAME
}
static const int waiting[5] = {0, 1, 2, Q_DEPTH - 3, Q_DEPTH - 2};
extern "C" void train(int part) {
  int b0 = part % 4, b1 = part / 4 % 4, cfg = part / 16; start(); top->pc_reg = place(0); int head[B], n[B]; Entry first[B];
  for (int b = 0; b < B; b++) { head[b] = (b + cfg) % 2 ? Q_DEPTH - 1 : (b + cfg) % 4 ? 7 : 0; n[b] = waiting[(cfg + (b == b0 || b == b1 ? 0 : b)) % 5]; top->q_rd_ptr[b] = head[b]; top->q_count[b] = n[b]; top->q_wr_ptr[b] = (head[b] + n[b]) % Q_DEPTH; v_in(top->update_queue[head[b]][b], v_name("waiting", b)); first[b] = top->update_queue[head[b]][b]; }
  for (int i = 0; i < N; i++) { in.in_upd_valid[i] = v_any<bool>(v_name("retired", i)); in.in_update_base_pc[i] = (v_any<uint32_t>(v_name("branch", i)) & ~0xfu) | (i ? b1 : b0) * 4; }
  step(); bool v0 = in.in_upd_valid[0], v1 = in.in_upd_valid[1]; bool full = false;
  for (int b = 0; b < B; b++) {
    bool pop = n[b] > 0; int c = n[b] - pop; int w = (head[b] + n[b]) % Q_DEPTH, w1 = (w + 1) % Q_DEPTH; bool p0 = b0 == b && v0, p1 = b1 == b && v1; int more = (p0 ? 1 : 0) + (p1 ? 1 : 0);
    v_is<uint32_t>(top->q_count[b], c + more, "every retired branch waits to be trained, and one at a time is"); v_is<uint32_t>(top->q_rd_ptr[b], (head[b] + pop) % Q_DEPTH, "training goes through the waiting branches in order"); v_is<uint32_t>(top->q_wr_ptr[b], more == 0 ? w : more == 1 ? w1 : (w + 2) % Q_DEPTH, "retired branches wait in retirement order"); full = full || (uint32_t)(c + more) > (uint32_t)(Q_DEPTH - N);
    const char *r = "a waiting branch keeps its own record"; if (b0 == b) entry_is(top->update_queue[w][b], 0, v0, r); if (b1 == b) { entry_is(top->update_queue[b0 == b ? w1 : w][b], 1, v1 && (b0 != b || v0), r); if (b0 == b) entry_is(top->update_queue[w][b], 1, v1 && !v0, r); }
    r = "the direction predictor is trained with the oldest waiting branch's own record"; const Entry &e = first[b]; bool t = pop && e.br_type == BR_DIRECT && e.valid_mask; v_is<bool>(dir_in[b].update_en, t, "exactly conditional branches train the direction predictor");
#define SAME(f, g) v_is<uint32_t>(t ? (uint32_t)dir_in[b].f : 0, t ? (uint32_t)e.g : 0, r)
    SAME(real_dir, actual_dir); SAME(pred_in, pred_dir); SAME(alt_pred_in, alt_pred); SAME(pcpn_in, pcpn); SAME(altpcpn_in, altpcpn); SAME(sc_used_in, sc_used); SAME(sc_pred_in, sc_pred); SAME(sc_sum_in, sc_sum); for (int k = 0; k < BPU_SCL_META_NTABLE; k++) SAME(sc_idx_in[k], sc_idx[k]); SAME(loop_used_in, loop_used); SAME(loop_hit_in, loop_hit); SAME(loop_pred_in, loop_pred); SAME(loop_idx_in, loop_idx); SAME(loop_tag_in, loop_tag); for (int k = 0; k < TN_MAX; k++) { SAME(tage_tag_flat_in[k], tage_tags[k]); SAME(tage_idx_flat_in[k], tage_idxs[k]); }
#undef SAME
    r = "the target predictor is trained with the oldest waiting branch's own record"; bool u = pop && e.valid_mask; v_is<bool>(tgt_in[b].upd_valid, u, r); v_is<uint32_t>(u ? tgt_in[b].upd_actual_addr : 0, u ? e.targets : 0, r); v_is<bool>(u && tgt_in[b].upd_actual_dir, u && e.actual_dir, r); v_is<uint32_t>(u ? tgt_in[b].upd_br_type_in : 0, u ? e.br_type : 0, r);
  }
  v_is<bool>(out.update_queue_full, full, "retirement is held back when a whole group would no longer fit");
  for (int i = 0; i < N; i++) { const char *r = "a retired branch's kind is learnt at its own address"; v_is<bool>(kind_in.upd_valid[i], in.in_upd_valid[i], r); v_is<uint32_t>(kind_in.upd_pc[i], in.in_update_base_pc[i], r); v_is<uint32_t>(kind_in.upd_br_type[i], in.in_actual_br_type[i], r); }
}
// a branch is trained at the place it is predicted from
extern "C" void together(int part) {
  static const uint32_t lines[4] = {0x80000940, 0xc3a5e180, 0x00001fc0, 0x5ffff000}; uint32_t pc = lines[part / 16] + part % 16 * 4; start(); top->pc_reg = pc; in.icache_read_ready = true; int n = slots(pc); part %= 16;
  for (int i = 0; i < n; i++) { int b = (part + i) % B; top->q_count[b] = 1; v_in(top->update_queue[0][b], v_name("waiting", b)); Entry &e = top->update_queue[0][b]; e.base_pc = pc + 4 * i; e.br_type = BR_DIRECT; e.valid_mask = true; }
  step(); for (int i = 0; i < n; i++) { int b = (part + i) % B; v_is<uint32_t>(dir_in[b].pc_update_in, dir_in[b].pc_pred_in, "a branch is trained where it is predicted"); v_is<uint32_t>(tgt_in[b].upd_pc, tgt_in[b].pred_pc, "a branch is trained where it is predicted"); }
}
