// P27: the data cache: address split, arrays, replacement, and the cache under traffic.
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: split 1
// ENTRY: policy 1
// ENTRY: arrays 64
// ENTRY: traffic 96
#include "memsys.h"
using namespace ms;
extern "C" void split(int) {
  uint32_t a = v_any<uint32_t>("a"), low = v_any<uint32_t>("low") & 63; AddrFields f = decode(a); const char *R = "an address and its position in the cache determine each other";
  v_is<uint32_t>(get_addr(f.set_idx, f.tag, f.word_off), a & ~3u, R); V_REQUIRE(f.set_idx < DCACHE_SETS_NUM && f.word_off < DCACHE_WORD_NUM, "positions stay inside the cache"); V_REQUIRE(f.bank < DCACHE_BANK_NUM, "positions stay inside the cache"); v_is<uint32_t>(f.word_off, a >> 2 & (DCACHE_WORD_NUM - 1), "words of a line are consecutive");
  for (int k = 5; k < 32; k++) { uint32_t b = a ^ low ^ (k > 5 ? 1u << k : 0); AddrFields g = decode(b); v_is<bool>(cache_line_match(a, b), k == 5, "addresses share a line when they differ only in the offset"); v_is<bool>(f.set_idx == g.set_idx && f.tag == g.tag, k == 5, "addresses share a line when they differ only in the offset"); }
  uint32_t s = v_any<uint32_t>("s"), t = v_any<uint32_t>("t"), w = v_any<uint32_t>("w"); s &= DCACHE_SETS_NUM - 1; w &= DCACHE_WORD_NUM - 1; t &= (1u << (32 - DCACHE_SET_BITS - DCACHE_OFFSET_BITS)) - 1; AddrFields k = decode(get_addr(s, t, w)); v_is<uint32_t>(k.set_idx, s, R); v_is<uint32_t>(k.tag, t, R); v_is<uint32_t>(k.word_off, w, R);
  uint32_t d = v_any<uint32_t>("d"), o = v_any<uint32_t>("o"); uint8_t m = v_any<uint8_t>("m") & 15; uint32_t n = o; apply_strobe(n, d, m); v_is<uint32_t>(n, blend(o, d, m), "exactly the selected bytes are replaced");
  // byte overlap of two accesses, within a word and across words
  for (uint32_t base : {0x80000020u, 0x800000fcu, 0x7ffffffcu, 0x9ffff000u}) for (int delta = -8; delta <= 8; delta += 4) for (int off = 0; off < 4; off++) { uint8_t x = v_any<uint8_t>("x") & 15, y = v_any<uint8_t>("y") & 15; v_is<bool>(CheckAddr(base + off, x, base + delta + (3 - off), y), delta == 0 && (x & y), "accesses overlap when they share a byte"); }
}
extern "C" void policy(int) {
  bool tree[DCACHE_PLRU_TREE_BITS], valid[DCACHE_WAYS_NUM]; for (int i = 0; i < DCACHE_PLRU_TREE_BITS; i++) tree[i] = v_any<bool>(v_name("tree", i)); for (int i = 0; i < DCACHE_WAYS_NUM; i++) valid[i] = v_any<bool>(v_name("valid", i));
  uint32_t v = choose_plru_tree_victim(tree, valid); V_REQUIRE(v < DCACHE_WAYS_NUM, "the victim is a way of the set"); bool all = true, there = false; for (int i = 0; i < DCACHE_WAYS_NUM; i++) { all &= valid[i]; there |= v == (uint32_t)i && valid[i]; } v_is<bool>(there, all, "a valid line is replaced only when no way is free");
  for (int i = 0; i < DCACHE_WAYS_NUM; i++) valid[i] = true;
  for (int w = 0; w < DCACHE_WAYS_NUM; w++) for (int u = 0; u < DCACHE_WAYS_NUM; u++) { for (int i = 0; i < DCACHE_PLRU_TREE_BITS; i++) plru_tree_state[9][i] = tree[i]; plru_tree_touch(9, w); uint32_t x = choose_plru_tree_victim(plru_tree_state[9], valid); V_REQUIRE(x != (uint32_t)w, "the line used last is not replaced next"); if (u == w) continue; plru_tree_touch(9, u); x = choose_plru_tree_victim(plru_tree_state[9], valid); V_REQUIRE(x != (uint32_t)u, "the line used last is not replaced next"); if ((u ^ w) >= DCACHE_WAYS_NUM / 2) V_REQUIRE(x != (uint32_t)w, "of two lines in different halves used last neither is replaced next"); }
}
// one set with unknown contents: stores, uses and a refill in one step
extern "C" void arrays(int part) {
  const int S = 200, O = 201; static uint32_t tag[2][DCACHE_WAYS_NUM], data[2][DCACHE_WAYS_NUM][WORDS]; static bool valid[2][DCACHE_WAYS_NUM], dirty[2][DCACHE_WAYS_NUM];
  for (int k = 0; k < 2; k++) for (int w = 0; w < DCACHE_WAYS_NUM; w++) { int s = k ? O : S; tag_array[s][w] = tag[k][w] = 100 + w; valid_array[s][w] = valid[k][w] = v_any<bool>(v_name(v_name("valid", k), w)); dirty_array[s][w] = dirty[k][w] = v_any<bool>(v_name(v_name("dirty", k), w)); for (int i = 0; i < WORDS; i++) data_array[s][w][i] = data[k][w][i] = v_any<uint32_t>(v_name(v_name(v_name("word", k), w), i)); }
  static PendingWrite pw[PORTS]; static LruUpdate lu[PORTS]; static FILLWrite fw; int way = part & 3, word = part * 5 % WORDS; bool fill = part & 4, same_line = part & 8, two = part & 16; uint8_t m0 = v_any<uint8_t>("m0") & 15, m1 = v_any<uint8_t>("m1") & 15; uint32_t d0 = v_any<uint32_t>("d0"), d1 = v_any<uint32_t>("d1");
  auto put = [&](int i, int w, int word, uint32_t d, uint8_t m) { pw[i].valid = true; pw[i].set_idx = S; pw[i].way_idx = w; pw[i].word_off = word; pw[i].data = d; pw[i].strb = m; data[0][w][word] = blend(data[0][w][word], d, m); dirty[0][w] = true; };
  put(LD, way, word, d0, m0); if (two) put(LD + 1, part & 32 ? way : way ^ 1, part & 32 ? word : (word + 1) % WORDS, d1, m1);
  if (fill) { int victim = way ^ 2; fw.valid = true; fw.set_idx = S; fw.way_idx = victim; fw.tag = 777; fw.dirty = v_any<bool>("fill_dirty"); for (int i = 0; i < WORDS; i++) fw.data[i] = v_any<uint32_t>(v_name("fill", i));
    if (same_line) fw.tag = tag[0][victim]; valid[0][victim] = true; dirty[0][victim] = fw.dirty; tag[0][victim] = fw.tag; for (int i = 0; i < WORDS; i++) data[0][victim][i] = fw.data[i]; }
  Dcache_Write(pw, lu, fw);
  static DcacheLineReadReq rq[PORTS]; static DcacheLineReadResp rs[PORTS]; static FillOut fo; static FillIn fi; for (int i = 0; i < PORTS; i++) rq[i].set_idx = i & 1 ? O : S; fo.valid = part & 1; fo.set_idx = S; Dcache_Read(rq, rs, fo, fi);
  for (int i = 0; i < PORTS; i++) for (int w = 0; w < DCACHE_WAYS_NUM; w++) { int k = i & 1; v_is<bool>(rs[i].valid[w], valid[k][w], "a step makes valid the refilled line and nothing else"); v_is<bool>(rs[i].dirty[w], dirty[k][w], "stores make their line dirty, a refill sets its own state"); v_is<uint32_t>(rs[i].tag[w], tag[k][w], "only the refilled way changes its line"); for (int x = 0; x < WORDS; x++) v_is<uint32_t>(rs[i].data[w][x], data[k][w][x], "stores and the refill change exactly their bytes"); }
  for (int w = 0; w < DCACHE_WAYS_NUM; w++) { v_is<bool>(fi.valid_snap[w], fo.valid && valid[0][w], "the victim is judged by the current contents"); if (fo.valid) { v_is<bool>(fi.dirty_snap[w], dirty[0][w], "the victim is judged by the current contents"); v_is<uint32_t>(fi.tag_snap[w], tag[0][w], "the victim is judged by the current contents"); for (int x = 0; x < WORDS; x++) v_is<uint32_t>(fi.data_snap[w][x], data[0][w][x], "the victim is handed over with its current contents"); } }
}
extern "C" void traffic(int part) {
  told_read = -1; told_write = 0; unknown_mask = part & 1; chase = part % 5 == 4 ? 0 : 1 + part % 3; fast_max = part & 2 ? (part & 16 ? 16 : 4) : 0; rd_slow = part & 4 ? 2 : part & 32 ? 30 : 7; wr_slow = part & 8 ? 60 : 3; start(part & 8 ? 24 : part % 3 ? 7 : 3, part + 1);
  for (int c = 0; c < 120; c++) { if (roll(5)) burst(2); cycle(); }
  settle(600); for (int l = 0; l < lines; l++) for (int w = 0; w < WORDS; w++) { propose(w % 2, l, w); if (w % 2) settle(600); }
}
