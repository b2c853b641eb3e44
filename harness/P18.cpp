// P18: issue selection.
// ENTRY: pick 32
// ENTRY: others 4
#include "isu.h"
long long sim_time;
using namespace isr;
// how an instruction waits in the queue
struct Kind { UopType op; bool wait1, wait2, use2; };
static const Kind kinds[8] = {{UOP_ADD, true, false, true}, {UOP_ADD, false, true, true}, {UOP_ADD, false, false, true}, {UOP_MUL, false, false, true},
                              {UOP_DIV, false, false, true}, {UOP_CSR, false, true, false}, {UOP_FP, false, false, true}, {UOP_FENCE, true, true, false}};
static void select(int iq, const int *slot, const Kind *k, int n) {
  boot();
  IssueQueue &q = isu.iqs[iq];
  v_in(exe2iss, "accept"); rob_bcast.flush = v_any<bool>("flush"); dec_bcast.mispred = v_any<bool>("mispred"); v_in(iss2prf, "stale"); v_in(dis2iss, "x"); for (auto &a : dis2iss.req) for (auto &r : a) r.valid = 0;
  IqStoredEntry was[3]; bool ready[3];
  for (int i = 0; i < n; i++) {
    hold(iq, slot[i], k[i].op, k[i].op == UOP_FENCE ? -1 : 10 + i, k[i].wait1, k[i].use2 ? 20 + i : -1, k[i].wait2, 30 + i, 40 + i, v_name("inst", i));
    was[i] = q.entry[slot[i]]; ready[i] = (k[i].op == UOP_FENCE || !k[i].wait1) && (!k[i].use2 || !k[i].wait2);
  }
  int count = q.count;
  isu.comb_begin(); isu.comb_ready(); isu.comb_issue();
  bool blocked = rob_bcast.flush || dec_bcast.mispred;
  bool issued[3] = {false, false, false}; bool all_accept = true; int total = 0;
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    const auto &g = iss2prf.iss_entry[p]; uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask, acc = exe2iss.fu_ready_mask[p]; bool mine = false;
    all_accept = all_accept && (acc & cap) == cap;
    for (int i = 0; i < n; i++) {
      bool here = g.valid && g.uop.rob_idx == 40u + i; uint64_t bit = 1ull << k[i].op;
      if (here) {
        V_REQUIRE(ready[i], "only an instruction whose operands are ready issues");
        V_REQUIRE(cap & bit, "an instruction issues only on a port that can execute it");
        V_REQUIRE(acc & bit, "an instruction issues only on a port that accepts it");
        V_REQUIRE(!blocked, "nothing issues in a cycle that squashes");
        V_REQUIRE(!issued[i], "an instruction issues at most once");
        same_uop(g.uop, was[i].uop, "an issued instruction is the queued one");
      }
      mine = mine || here; issued[i] = issued[i] || here;
    }
    v_is<bool>(g.valid, mine, "a port issues only instructions waiting in its queue"); total += g.valid ? 1 : 0;
  }
  for (int p = 0; p < ISSUE_WIDTH; p++) {   // lower slots have priority
    const auto &g = iss2prf.iss_entry[p]; uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (slot[j] < slot[i] && ready[j] && (cap >> k[j].op & 1))
      if (g.valid && g.uop.rob_idx == 40u + i && (exe2iss.fu_ready_mask[p] >> k[j].op & 1)) {
        bool declined = false; for (int o = 0; o < ISSUE_WIDTH; o++) declined = declined || (o != p && (GLOBAL_ISSUE_PORT_CONFIG[o].support_mask >> k[j].op & 1) && !(exe2iss.fu_ready_mask[o] >> k[j].op & 1));
        V_REQUIRE(issued[j] || declined, "an instruction with priority is passed over only after a port declined it");
      }
    bool left = false; for (int i = 0; i < n; i++) left = left || (ready[i] && !issued[i] && (cap >> k[i].op & 1));
    if (all_accept && !blocked && !g.valid) V_REQUIRE(!left, "a port idles only when nothing is ready for it");
  }
  isu.seq();
  for (int i = 0; i < n; i++) {
    v_is<bool>(q.entry[slot[i]].valid, !issued[i], "an issued instruction leaves its queue, others stay");
    if (!issued[i]) { same_uop(q.entry[slot[i]].uop, was[i].uop, "a waiting instruction is not changed"); v_is<bool>(q.entry[slot[i]].uop.src1_busy, was[i].uop.src1_busy, "issuing does not wake operands"); v_is<bool>(q.entry[slot[i]].uop.src2_busy, was[i].uop.src2_busy, "issuing does not wake operands"); }
  }
  for (int s = 0; s < q.size; s++) { bool own = false; for (int i = 0; i < n; i++) own = own || slot[i] == s; if (!own) V_REQUIRE(!q.entry[s].valid, "issuing creates no instructions"); }
  v_is<int>(q.count, count - total, "the queue counts what it holds");
}
extern "C" void pick(int part) {
  static const int at[4][3] = {{0, 1, 2}, {29, 30, 31}, {3, 17, 31}, {0, 15, 16}};
  for (int c = part * 16; c < part * 16 + 16; c++) { Kind k[3] = {kinds[c & 7], kinds[c >> 3 & 7], kinds[c >> 6 & 7]}; select(IQ_INT, at[(c ^ c >> 3) & 3], k, 3); }
}
extern "C" void others(int part) {
  static const int at[3] = {0, 6, 15}; static const int iqs[4] = {IQ_LD, IQ_STA, IQ_STD, IQ_BR}; static const UopType ops[4][2] = {{UOP_LOAD, UOP_LOAD}, {UOP_STA, UOP_STA}, {UOP_STD, UOP_STD}, {UOP_BR, UOP_JUMP}};
  for (int c = 0; c < 8; c++) { Kind k[3]; for (int i = 0; i < 3; i++) k[i] = {ops[part][i & 1], !(c >> i & 1), false, part == 3}; select(iqs[part], at, k, 3); }
}
