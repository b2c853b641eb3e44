// P44: what the branch predictor has been taught is what it predicts.
// ENTRY: kinds 128
// ENTRY: targets 96
// ENTRY: indirect 16
// FLAGS: -I$VERIF/harness/stubcpu -DTWO_AHEAD_TABLE_SIZE=64
#include "vh.h"
#include "front-end/BPU/BPU.h"
BPU_TOP *g_bpu_top;
namespace {
const int W = FETCH_WIDTH, N = COMMIT_WIDTH;
// addresses that share a place in the tables with the first one, or do not
uint32_t address(int part) { static const uint32_t a[8] = {0x80000000, 0x80000124, 0x8000fffc, 0x00001f38, 0xc3a5e184, 0xfffff7f0, 0x5a5a5a58, 0x80400010}; return a[part % 8]; }
alignas(16) char kind_store[sizeof(TypePredictor)], target_store[sizeof(BTB_TOP)];
TypePredictor &kp = *(TypePredictor *)kind_store; BTB_TOP &tp = *(BTB_TOP *)target_store;
TypePredictor::InputPayload ki; TypePredictor::OutputPayload ko; TypePredictor::ReadData kr; TypePredictor::CombResult kq;
BTB_TOP::InputPayload ti; BTB_TOP::OutputPayload to; BTB_TOP::ReadData tr; BTB_TOP::CombResult tq;
void kind_step() { kp.type_pred_seq_read(ki, kr); kp.type_pred_comb_calc(ki, kr, ko, kq); kp.type_pred_seq_write(ki, kq, false); }
void target_step() { tp.btb_seq_read(ti, tr); tp.btb_comb_calc(ti, tr, to, tq); tp.btb_seq_write(ti, tq, false); }
int kind_of(uint32_t pc, int slot) { ki = {}; ki.pred_valid[slot] = true; ki.pred_pc[slot] = pc; kind_step(); return ko.pred_type[slot]; }
uint32_t target_of(uint32_t pc, int kind) { ti = {}; ti.pred_req = true; ti.pred_pc = pc; ti.pred_type_in = kind; target_step(); return to.pred_target; }
bool kind_known(uint32_t pc, int slot) { kind_of(pc, slot); return ko.pred_hit[slot]; }
}
extern "C" void kinds(int part) {
  __v_noexit(1); uint32_t pc = address(part), far = pc ^ 0x4000u; int slot = part % W, c = part / 8 % N, fill = part / 8; if (fill % 4 == fill / 4 && fill % 4) fill = 0; new (kind_store) TypePredictor;
  // any contents that hold no address twice
  for (auto &bank : kp.table) for (auto &set : bank) for (auto &e : set) e.valid = false;
  TypePredictor::PreReadCombOut where; ki = {}; ki.pred_valid[0] = true; ki.pred_pc[0] = pc; kp.pre_read_comb(ki, where);
  TypePredictor::Entry(&set)[TYPE_PRED_WAY_NUM] = kp.table[where.pred_req.bank[0]][where.pred_req.set_idx[0]]; v_in(set, "entry"); for (int i = 0; i < TYPE_PRED_WAY_NUM; i++) { int f = i ? fill / 4 : fill % 4; set[i].valid = f; TypePredictor::PreReadCombOut q; ki = {}; ki.pred_valid[0] = true; ki.pred_pc[0] = f == 1 ? pc : f == 2 ? far : pc ^ 0x8000u; kp.pre_read_comb(ki, q); set[i].tag = q.pred_req.tag[0]; V_ASSUME(set[i].type <= BR_JAL && set[i].conf <= TYPE_PRED_CONF_MAX && set[i].age <= TYPE_PRED_AGE_MAX); }
  bool had = kind_known(pc, slot); int far_before = kind_of(far, slot), t = v_any<uint8_t>("learnt"); bool teach = v_any<bool>("teach"); V_ASSUME(t <= BR_JAL);
  int before = kind_of(pc, slot); ki = {}; ki.upd_valid[c] = teach; ki.upd_pc[c] = pc; ki.upd_br_type[c] = t; int o = (c + 1) % N; ki.upd_valid[o] = v_any<bool>("other"); ki.upd_pc[o] = pc ^ 4; ki.upd_br_type[o] = v_any<uint8_t>("other_kind"); V_ASSUME(ki.upd_br_type[o] <= BR_JAL); kind_step();
  v_is<uint32_t>(kind_of(pc, slot), teach ? t : before, "an instruction is next predicted with the kind it last had"); int far_after = kind_of(far, slot);
  v_is<uint32_t>(teach && !had && t != BR_NONCTL ? 0 : far_after, teach && !had && t != BR_NONCTL ? 0 : far_before, "teaching a known instruction forgets no other"); V_REQUIRE(far_after == far_before || far_after == BR_NONCTL, "teaching one instruction does not change the kind of another");
  for (int i = 0; i < TYPE_PRED_WAY_NUM; i++) { V_REQUIRE(set[i].conf <= TYPE_PRED_CONF_MAX && set[i].age <= TYPE_PRED_AGE_MAX, "counters stay within their range"); for (int j = 0; j < i; j++) V_REQUIRE(!(set[i].valid && set[j].valid && set[i].tag == set[j].tag), "no instruction is held twice"); }
}
// what the ways hold: nothing, the address, the one that shares its place, others
static const char *const fills[12] = {"....", "p...", "f.p.", "xyzf", "fxyp", "pfxy", "xyzw", "xfyp", "f...", "fx.y", "xyf.", ".pxf"};
static const int direct[4] = {BR_DIRECT, BR_CALL, BR_RET, BR_JAL};
static void empty() { for (auto &w : tp.mem_btb_valid) for (auto &v : w) v = false; for (auto &v : tp.mem_bht) v = 0; for (auto &w : tp.mem_tc_valid) for (auto &v : w) v = false; for (auto &w : tp.mem_tc_pre_valid) for (auto &v : w) v = false; for (auto &v : tp.mem_tc_mode) v = BTB_TOP::kTcModeInit; }
extern "C" void targets(int part) {
  __v_noexit(1); uint32_t pc = address(part); int kind = direct[part % 4]; const char *fill = fills[part / 8]; empty(); int at = tp.btb_get_idx_value(pc);
  // another address at the same place
  uint32_t far = 0; for (uint32_t x = 1; x < 64 && !far; x++) { uint32_t q = pc ^ (x << 8); if (tp.btb_get_idx_value(q) == at && tp.btb_get_tag_value(q) != tp.btb_get_tag_value(pc)) far = q; } if (!far) for (uint32_t x = 1; x < 4096 && !far; x++) { uint32_t q = pc ^ (x << 2); if (tp.btb_get_idx_value(q) == at && tp.btb_get_tag_value(q) != tp.btb_get_tag_value(pc)) far = q; }
  V_REQUIRE(far != 0, "two addresses share a place"); 
  for (int w = 0; w < BTB_WAY_NUM; w++) { char f = fill[w]; tp.mem_btb_tag[w][at] = f == 'f' ? tp.btb_get_tag_value(far) : tp.btb_get_tag_value(pc) ^ (f == 'p' ? 0 : (f & 3) + 1 == (tp.btb_get_tag_value(pc) ^ tp.btb_get_tag_value(far)) ? 8 : (f & 3) + 1); tp.mem_btb_valid[w][at] = f != '.'; v_in(tp.mem_btb_bta[w][at], v_name("held", w)); v_in(tp.mem_btb_useful[w][at], v_name("useful", w)); V_ASSUME(tp.mem_btb_useful[w][at] <= 7); }
  bool had = false; for (int w = 0; w < BTB_WAY_NUM; w++) had = had || (tp.mem_btb_valid[w][at] && tp.mem_btb_tag[w][at] == tp.btb_get_tag_value(pc));
  uint32_t before = target_of(pc, kind), far_before = target_of(far, kind), T = v_any<uint32_t>("taught"); bool teach = v_any<bool>("teach"), taken = v_any<bool>("taken");
  ti = {}; ti.upd_valid = teach; ti.upd_pc = pc; ti.upd_actual_addr = T; ti.upd_br_type_in = kind; ti.upd_actual_dir = taken; target_step();
  v_is<uint32_t>(target_of(pc, kind), teach && taken ? T : before, "a taken branch is next predicted to go where it last went"); uint32_t far_after = target_of(far, kind);
  bool room = false; for (int w = 0; w < BTB_WAY_NUM; w++) room = room || fill[w] == '.'; // nothing need be forgotten then
  bool grew = teach && taken && !had && !room; v_is<uint32_t>(grew ? 0 : far_after, grew ? 0 : far_before, "teaching a branch that is known or for which there is room forgets no other"); V_REQUIRE(far_after == far_before || far_after == far + 4, "teaching one branch does not change the target of another");
  for (int w = 0; w < BTB_WAY_NUM; w++) { V_REQUIRE(tp.mem_btb_useful[w][at] <= 7, "counters stay within their range"); for (int j = 0; j < w; j++) V_REQUIRE(!(tp.mem_btb_valid[w][at] && tp.mem_btb_valid[j][at] && tp.mem_btb_tag[w][at] == tp.mem_btb_tag[j][at]), "no branch is held twice"); }
}
// an indirect jump: the first target taught is predicted, whatever the history
extern "C" void indirect(int part) {
  __v_noexit(1); uint32_t pc = address(part); empty(); int h = tp.bht_get_idx_value(pc); tp.mem_bht[h] = part / 8 ? 0x2d : 0; uint32_t T = part / 8 ? 0x80001234u + part * 0x1a4 : 0x80000000u + part * 0x340;
  ti = {}; ti.upd_valid = true; ti.upd_pc = pc; ti.upd_actual_addr = T; ti.upd_br_type_in = BR_IDIRECT; ti.upd_actual_dir = true; target_step();
  v_is<uint32_t>(target_of(pc, BR_IDIRECT), T, "an indirect jump is next predicted to go where it last went"); 
  for (auto &w : tp.mem_btb_valid) for (auto &v : w) v = false; v_is<uint32_t>(target_of(pc, BR_IDIRECT), T, "an indirect jump's last target is found again by its history");
  uint8_t m = v_any<uint8_t>("mode"); bool right = v_any<bool>("right"); V_ASSUME(m <= BTB_TOP::kTcModeMax); uint8_t n = tp.tc_mode_next_value(m, right); V_REQUIRE(n <= BTB_TOP::kTcModeMax && (right ? n >= m : n <= m), "counters stay within their range");
}
