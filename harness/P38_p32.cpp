// memory safety over the inputs of P32
// FLAGS: -I$VERIF/harness/stubcpu
// ENTRY: traffic 8
// ENTRY: squashes 8
// ENTRY: faults 8
// ENTRY: atomics 8
// ENTRY: devices 8
// ENTRY: interrupts 8
#include "safe.h"
#include "P32.cpp"
