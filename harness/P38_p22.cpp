// memory safety over the inputs of P22
// ENTRY: retire 8
// ENTRY: broadcast 8
// ENTRY: window_next 8
// ENTRY: finish 8
// ENTRY: parts 8
// ENTRY: squash 8
// ENTRY: announce 6
// ENTRY: through 6
// FLAGS: -I$VERIF/harness/stubcpu
#include "safe.h"
#include "P22.cpp"
