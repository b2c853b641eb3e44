// memory safety over the inputs of P44
// ENTRY: kinds 32
// ENTRY: targets 32
// ENTRY: indirect 16
// FLAGS: -I$VERIF/harness/stubcpu -DTWO_AHEAD_TABLE_SIZE=64
#include "safe.h"
#include "P44.cpp"
