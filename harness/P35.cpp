// P35: the fetch-side queues, driven through their public steps only.
// ENTRY: addresses 9
// ENTRY: instructions 9
// ENTRY: predictions 9
// ENTRY: groups 9
// FLAGS: -I$VERIF/harness/stubcpu
#include "vh.h"
#include "front-end/fifo/fetch_address_FIFO.cpp"
#include "front-end/fifo/instruction_FIFO.cpp"
#include "front-end/fifo/PTAB.cpp"
#define bit_mask_u32 bit_mask_u32_again
#include "front-end/fifo/front2bank_FIFO.cpp"
#undef bit_mask_u32
#include "fifo.h"
// (A placeholder written and its entry read through in one step never occurs: the
// prediction queue is read and written in separate steps, see P35_front.)
// Fill to n entries, apply every request once, then drain.
template <class Q> static void every(int n) {
  for (int op = 0; op < 16; op++) for (int twin = 0; twin < (Q::twins ? 2 : 1); twin++) {
    bool reset = op & 8, clear = op & 4, rd = op & 2, wr = op & 1;
    typename Q::In want[Q::size + 2]; bool dummy[Q::size + 2] = {}; int have = 0;
    typename Q::In in; typename Q::Out out; auto blank = [&] { std::memset(&in, 0, sizeof in); };
    auto step = [&] { typename Q::Rd rdv, nx; typename Q::Req rq; std::memset(&rdv, 0xa5, sizeof rdv); Q::read(&in, &rdv); Q::comb(&in, &rdv, &out, &nx, &rq); typename Q::Rd after; Q::write(&rq); Q::read(&in, &after); v_is<uint32_t>(nx.size, after.size, "the size announced during the cycle is the size after it"); if (nx.head_valid && !(Q::twins && twin && in.read_enable && in.write_enable)) { V_REQUIRE(after.head_valid, "a head announced during the cycle is the head after it"); v_eq(nx.head_entry, after.head_entry, "a head announced during the cycle is the head after it"); } };
    auto put = [&](int k, bool both) { v_in(in, v_name("entry", k)); Q::tidy(in); in.reset = in.refetch = in.read_enable = false; in.write_enable = true; Q::twin(in, both); };
    auto note = [&](bool both) { want[have] = in; dummy[have++] = false; if (both) { want[have] = in; dummy[have++] = true; } };
    blank(); in.reset = true; step(); v_is<bool>(out.empty, true, "a reset queue is empty"); v_is<bool>(out.full, false, "a reset queue is not full");
    for (int k = 0; have < n; k++) { bool both = Q::twins && twin && have + 2 <= n && k % 2 == 0; put(k, both); step(); note(both); v_is<bool>(Q::got(out), false, "nothing leaves unasked"); v_is<bool>(out.empty, have == 0, "the empty indication matches the occupancy after the cycle"); v_is<bool>(out.full, have >= Q::full, "the full indication matches the occupancy after the cycle"); }
    if (have != n || (wr && !clear && !reset && have + 1 + (Q::twins && twin) > Q::size)) continue;
    // the request under test
    if (wr) put(20, Q::twins && twin); else { v_in(in, "idle"); Q::tidy(in); in.write_enable = false; Q::twin(in, v_any<bool>("idle_twin")); }
    in.reset = reset; in.refetch = clear; in.read_enable = rd; typename Q::In asked = in; step();
    if (reset) { have = 0; v_is<bool>(Q::got(out), false, "nothing leaves a queue being reset"); }
    else {
      if (clear) have = 0;
      if (wr) { in = asked; note(Q::twins && twin); }
      bool leave = rd && have; v_is<bool>(Q::got(out) || (Q::twins && leave), leave, "an entry leaves exactly when asked and there is one");
      if (leave) { Q::same(out, want[0], dummy[0]); for (int i = 1; i < have; i++) { want[i - 1] = want[i]; dummy[i - 1] = dummy[i]; } have--; }
    }
    v_is<bool>(out.empty, have == 0, "the empty indication matches the occupancy after the cycle"); if (!reset) v_is<bool>(out.full, have >= Q::full, "the full indication matches the occupancy after the cycle");
    // an idle cycle changes nothing
    v_in(in, "quiet"); Q::tidy(in); in.reset = in.refetch = in.read_enable = in.write_enable = false; step(); v_is<bool>(Q::got(out), false, "nothing leaves unasked"); v_is<bool>(out.empty, have == 0, "the empty indication matches the occupancy after the cycle");
    int m = have; for (int i = 0; i <= m; i++) { v_in(in, v_name("drain", i)); Q::tidy(in); in.reset = in.refetch = in.write_enable = false; in.read_enable = true; step(); if (i < m) { v_is<bool>(Q::got(out) || Q::twins, true, "an entry leaves exactly when asked and there is one"); Q::same(out, want[i], dummy[i]); } else if (!Q::twins) v_is<bool>(Q::got(out), false, "an entry leaves exactly when asked and there is one"); v_is<bool>(out.empty, i + 1 >= m, "the empty indication matches the occupancy after the cycle"); v_is<bool>(out.full, (i + 1 >= m ? 0 : m - i - 1) >= Q::full, "the full indication matches the occupancy after the cycle"); }
  }
}
extern "C" void addresses(int part) { __v_noexit(1); every<qa>(part); }
extern "C" void instructions(int part) { __v_noexit(1); every<qi>(part); }
extern "C" void predictions(int part) { __v_noexit(1); every<qp>(part); }
extern "C" void groups(int part) { __v_noexit(1); every<qg>(part); }
