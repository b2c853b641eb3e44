// P25: the queue between fetch and decode and the prediction records behind it.
// ENTRY: stream 40
// ENTRY: edge 33
#include "vh.h"
#include "back-end/InstructionBuffer.cpp"
#include "back-end/PreIduQueue.cpp"
static PreIduQueue pre; static FrontPreIO front; static IduConsumeIO consume; static RobBroadcastIO rob_bcast; static RobCommitIO rob_commit; static ExuIdIO br; static FtqPrfPcReqIO preq; static FtqRobPcReqIO rreq; static PreFrontIO back; static PreIssueIO issue; static FtqPrfPcRespIO presp; static FtqRobPcRespIO rresp; static FtqCommitInfoIO info;
enum { MAX = 160, GR = 64 };
static FrontPreIO grp[GR]; static int grps;
struct Ins { int g, off; bool last; uint32_t idx; }; static Ins q[MAX]; static int done, taken, tail; // retired, consumed, accepted
static uint32_t rng; static uint32_t rnd() { rng = rng * 1664525u + 1013904223u; return rng >> 16; }
static int groups_live() { int n = 0, last = -1; for (int i = done; i < tail; i++) if (q[i].g != last) { n++; last = q[i].g; } return n; }
static void boot(uint32_t seed) {
  __v_noexit(1); rng = seed; pre.in = PreIduQueueIn{&front, &consume, &rob_bcast, &rob_commit, &br, &preq, &rreq}; pre.out = PreIduQueueOut{&back, &issue, &presp, &rresp, &info}; pre.init(); grps = done = taken = tail = 0; v_in(issue, "stale_issue"); v_in(back, "stale_back"); v_in(info, "stale_info");
}
struct Do { int valid, eat, commit; int mis; bool flush, early; };
static void record(const FtqPcReadResp &r, const Ins &i, const char *rule) { const FrontPreIO &f = grp[i.g]; v_is<bool>(r.valid, true, rule); v_is<bool>(r.entry_valid, true, rule); v_is<uint32_t>(r.pc, f.pc[i.off], rule); v_is<bool>(r.pred_taken, f.predict_dir[i.off], rule); v_is<uint32_t>(r.next_pc, f.predict_next_fetch_address[0], rule); }
static void cycle(const Do &d) {
  // offered group
  v_in(front, v_name("group", grps)); for (int i = 0; i < FETCH_WIDTH; i++) front.valid[i] = d.valid >> i & 1; int offered = __builtin_popcount(d.valid);
  br = ExuIdIO(); br.mispred = d.mis >= 0; br.ftq_idx = d.mis >= 0 ? q[d.mis].idx : v_any<uint8_t>("stale_ftq_idx") & (FTQ_SIZE - 1); rob_bcast.flush = d.flush && d.early; for (auto &c : rob_commit.commit_entry) c.valid = false;
  pre.comb_begin();
  // what decode sees
  int n = 0; for (int i = 0; i < DECODE_WIDTH; i++) { bool have = taken + i < tail; v_is<bool>(issue.entries[i].valid, have, "decode sees exactly the oldest waiting instructions"); if (have) { const Ins &x = q[taken + i]; const FrontPreIO &f = grp[x.g]; auto &e = issue.entries[i]; v_is<uint32_t>(e.inst, f.inst[x.off], "an instruction arrives unchanged"); v_is<uint32_t>(e.pc, f.pc[x.off], "an instruction arrives with its address"); v_is<bool>(e.page_fault_inst, f.page_fault_inst[x.off], "an instruction arrives with its fetch fault"); v_is<bool>(e.ftq_is_last, x.last, "the last instruction of a group is marked"); v_is<uint32_t>(e.ftq_offset, x.off, "an instruction knows its place in its group"); n++; } }
  pre.comb_accept_front(); bool squash = d.flush || d.mis >= 0;
  if (back.ready && !squash) V_REQUIRE(groups_live() < FTQ_SIZE && tail - taken + offered <= IDU_INST_BUFFER_SIZE, "nothing is accepted beyond the space there is");
  if (d.mis >= 0 || (d.flush && d.early)) v_is<bool>(back.ready, false, "nothing is accepted in a squash"); else if (groups_live() <= FTQ_SIZE / 2 && tail - taken <= IDU_INST_BUFFER_SIZE / 2) v_is<bool>(back.ready, true, "a queue at most half full accepts");
  for (int i = 0; i < FETCH_WIDTH; i++) v_is<bool>(back.fire[i], back.ready && front.valid[i], "exactly the offered instructions are taken, or none");
  // records of everything in flight
  for (auto &r : preq.req) r = FtqPcReadReq(); for (auto &r : rreq.req) r = FtqPcReadReq(); int who[FTQ_PRF_PC_PORT_NUM]; for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) { who[i] = -1; if (done < taken) { who[i] = done + (rnd() + i) % (taken - done); preq.req[i].valid = true; preq.req[i].ftq_idx = q[who[i]].idx; preq.req[i].ftq_offset = q[who[i]].off; } }
  v_in(presp, "stale_presp"); v_in(rresp, "stale_rresp"); pre.comb_ftq_lookup_prf(); for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) if (who[i] >= 0) record(presp.resp[i], q[who[i]], "an instruction in flight finds the record of its own group"); else v_is<bool>(presp.resp[i].valid, false, "no answer without a question");
  if (done < taken) { rreq.req[0].valid = true; rreq.req[0].ftq_idx = q[done].idx; rreq.req[0].ftq_offset = q[done].off; } pre.comb_ftq_lookup_rob(); if (done < taken) record(rresp.resp[0], q[done], "an instruction in flight finds the record of its own group"); else v_is<bool>(rresp.resp[0].valid, false, "no answer without a question");
  // retirement
  int com = d.mis >= 0 ? 0 : d.commit < taken - done ? d.commit : taken - done; for (int i = 0; i < com; i++) { auto &c = rob_commit.commit_entry[i]; v_in(c.uop, v_name("retiring", i)); c.valid = true; c.uop.ftq_idx = q[done + i].idx; c.uop.ftq_offset = q[done + i].off; c.uop.ftq_is_last = q[done + i].last; }
  pre.comb_commit_info(); for (int i = 0; i < com; i++) { const Ins &x = q[done + i]; const FrontPreIO &f = grp[x.g]; const auto &r = info.resp[i]; int o = x.off; const char *R = "a retiring instruction is reported with its own prediction record"; v_is<uint32_t>(r.pc, f.pc[o], R); v_is<bool>(r.pred_taken, f.predict_dir[o], R); v_is<bool>(r.alt_pred, f.alt_pred[o], R); v_is<uint32_t>(r.altpcpn, f.altpcpn[o], R); v_is<uint32_t>(r.pcpn, f.pcpn[o], R); v_is<bool>(r.sc_used, f.sc_used[o], R); v_is<bool>(r.sc_pred, f.sc_pred[o], R); v_is<int32_t>(r.sc_sum, f.sc_sum[o], R); v_is<bool>(r.loop_used, f.loop_used[o], R); v_is<bool>(r.loop_hit, f.loop_hit[o], R); v_is<bool>(r.loop_pred, f.loop_pred[o], R); v_is<uint32_t>(r.loop_idx, f.loop_idx[o], R); v_is<uint32_t>(r.loop_tag, f.loop_tag[o], R); for (int k = 0; k < 4; k++) { v_is<uint32_t>(r.tage_idx[k], f.tage_idx[o][k], R); v_is<uint32_t>(r.tage_tag[k], f.tage_tag[o][k], R); } for (int t = 0; t < BPU_SCL_META_NTABLE; t++) v_is<uint32_t>(r.sc_idx[t], f.sc_idx[o][t], R); }
  rob_bcast.flush = d.flush; int eat = d.eat < n ? d.eat : n; for (int i = 0; i < DECODE_WIDTH; i++) consume.fire[i] = i < eat; if (squash && d.mis >= 0) eat = 0;
  for (int i = 0; i < eat; i++) q[taken + i].idx = issue.entries[i].ftq_idx;
  bool took = back.ready && offered; pre.comb_fire(); pre.seq();
  // what must be there now
  if (d.flush) { done = taken = tail; }
  else if (d.mis >= 0) { q[d.mis].last = true; tail = taken = d.mis + 1; }
  else { done += com; taken += eat; if (took) { grp[grps] = front; int last = -1; for (int i = 0; i < FETCH_WIDTH; i++) if (d.valid >> i & 1) { q[tail] = Ins{grps, i, false, 0}; last = tail++; } if (last >= 0) q[last].last = true; grps++; } }
}
extern "C" void stream(int part) {
  boot(part * 977 + 5); int mood = part % 5;
  for (int c = 0; c < 48 && tail + FETCH_WIDTH < MAX && grps + 1 < GR; c++) {
    Do d; d.valid = rnd() & 15; if (mood == 1) d.valid = 15; if (mood == 2) d.valid = 1 << rnd() % 4; d.eat = mood == 1 && c < 14 ? 0 : rnd() % 3; d.commit = mood == 2 && c < 26 ? 0 : mood == 3 ? rnd() % 2 : rnd() % 3; d.mis = -1; d.flush = rnd() % 17 == 0 && !(mood == 2 && c < 24); d.early = rnd() & 1; if (!d.flush && rnd() % 9 == 0 && taken > done && !(mood == 1 && c < 14)) d.mis = done + rnd() % (taken - done); cycle(d);
  }
}
// every position of the record ring, full and empty, with a squash at each distance
extern "C" void edge(int part) {
  for (int back_off = 0; back_off < (part < 16 ? 16 : 1); back_off++) {
    boot(part + 7); int turn = part % 16; for (int k = 0; k < turn; k++) { cycle(Do{1, 2, 2, -1, false, false}); cycle(Do{0, 2, 2, -1, false, false}); cycle(Do{0, 0, 2, -1, false, false}); }
    if (part == 32) { for (int k = 0; k < 12; k++) cycle(Do{15, 0, 0, -1, false, false}); for (int k = 0; k < 40; k++) cycle(Do{k % 3 ? 0 : 15, 2, 2, -1, false, false}); continue; }
    for (int k = 0; k < 20; k++) cycle(Do{part < 16 ? 8 : 3, 2, 0, -1, false, false});
    if (part < 16) { int m = taken - 1 - back_off; if (m >= done) cycle(Do{15, 1, 1, m, false, true}); } else cycle(Do{15, 1, 1, -1, true, (part & 1) != 0});
    for (int k = 0; k < 24; k++) cycle(Do{k < 4 ? 5 : 0, 2, 2, -1, false, false}); V_REQUIRE(done == tail, "everything accepted reaches decode and leaves");
  }
}
