// Clock edge of the memory modules and the load/store unit: the whole record of registered state becomes the computed next record.
// ENTRY: edge 6
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
#include "memsys.h"
static const char *EDGE = "an element of registered state takes its next value at the clock edge";
template <class S> static void whole(S &cur, S &nxt, const char *n) { v_in(nxt, v_rule("next", n)); v_in(cur, v_rule("current", n)); }
alignas(64) static char s0[sizeof(MSHR)], s1[sizeof(WriteBuffer)], s2[sizeof(MemRouteBlock)], s3[sizeof(PeripheralAxi)], s4[sizeof(RealDcache)], s5[sizeof(MemPtwBlock)];
#define GO(T, mem, c, n, call) { T &o = *(T *)mem; whole(o.c, o.n, #T); static decltype(o.c) k; __builtin_memcpy((void *)&k, (const void *)&o.n, sizeof k); o.call; v_eq(o.c, k, v_rule(EDGE, #T)); break; }
extern "C" void edge(int part) {
  switch (part) {
  case 0: GO(MSHR, s0, cur, nxt, seq(false))
  case 1: GO(WriteBuffer, s1, cur, nxt, seq())
  case 2: GO(MemRouteBlock, s2, cur, nxt, seq())
  case 3: GO(PeripheralAxi, s3, cur, nxt, seq())
  case 4: GO(RealDcache, s4, s1s2_cur, s1s2_nxt, seq())
  case 5: GO(MemPtwBlock, s5, cur_, nxt_, seq())
  }
}
