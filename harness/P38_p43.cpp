// memory safety over the inputs of P43
// ENTRY: choose 16
// ENTRY: speculate 16
// ENTRY: retire 24
// ENTRY: train 40
// ENTRY: together 16
// FLAGS: -I$VERIF/harness/stubcpu -DTWO_AHEAD_TABLE_SIZE=64
#include "safe.h"
#include "P43.cpp"
