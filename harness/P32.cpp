// P32: loads return the youngest older store, stores reach memory once and after retirement, device accesses in order.
// FLAGS: -I$VERIF/harness/stubcpu
// ENTRY: traffic 32
// ENTRY: squashes 32
// ENTRY: faults 32
// ENTRY: atomics 48
// ENTRY: devices 48
// ENTRY: interrupts 64
#include "lsu.h"
static void run(uint32_t part, int cycles) { lq::start(part); for (int i = 0; i < cycles; i++) lq::cycle(); lq::drain(600); }
#define MODE(NAME, MISS, REPLAY, SQUASH, FAULT, DEV, ATOM, IRQ, SLOW) extern "C" void NAME(uint32_t part) { lq::p_miss = MISS; lq::p_replay = REPLAY; lq::p_squash = SQUASH; lq::p_fault = FAULT; lq::p_mmio = DEV; lq::p_amo = ATOM; lq::p_flush = IRQ; lq::irq_mode = IRQ > 0; lq::slow = SLOW; run(part, 160); }
MODE(traffic, part % 3 * 15, part % 4 * 20, 0, 0, 0, 0, 0, 3 + part % 5 * 4)
MODE(squashes, part % 3 * 15, part % 4 * 15, 50, 0, 0, 0, 0, 3 + part % 5 * 3)
MODE(faults, 15, part % 3 * 20, 30, 6, 0, 10, 0, 3 + part % 4 * 4)
MODE(atomics, part % 3 * 15, part % 4 * 15, 20, 0, 0, 35, 0, 3 + part % 5 * 3)
MODE(devices, 10, part % 3 * 20, 20, 0, 25, 5, 0, 3 + part % 5 * 3)
MODE(interrupts, 10, part % 3 * 20, 20, 3, 25, 15, 6, 3 + part % 5 * 3)
