// memory safety over the inputs of P24_top
// FLAGS: -I$VERIF/harness/stubaxi
// ENTRY: to_core 8
// ENTRY: from_core 20
#include "safe.h"
#include "P24_top.cpp"
