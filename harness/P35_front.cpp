// P35: the queues inside the fetch pipeline, with reads and writes in separate steps.
// ENTRY: stream 24
// FLAGS: -I$VERIF/harness/stubcpu
#include "front.h"
using namespace fr;
extern "C" void stream(int part) {
  for (int round = 0; round < 3; round++) {
    boot(part * 3 + round); int lazy = part % 4;
    for (int c = 0; c < 26; c++) {
      do_issue = rnd() % 8 < 7; do_ready = lazy != 1 || rnd() % 4; do_answer = lazy == 2 ? rnd() % 4 == 0 : rnd() % 8 < 6; in.FIFO_read_enable = lazy == 3 ? rnd() % 5 == 0 : rnd() % 2; in.refetch = rnd() % 12 == 0; in.refetch_address = 0xa0000000 + c * 0x100; cycle();
    }
    in.refetch = false; do_issue = false; do_ready = do_answer = true; in.FIFO_read_enable = true; for (int c = 0; c < 40; c++) cycle();
    v_is<uint32_t>(delivered, lives, "every group reaches the back end exactly once");
  }
}
