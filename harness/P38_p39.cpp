// memory safety over the inputs of P39
// ENTRY: image 8
// ENTRY: header 12
// ENTRY: cut_short 16
// ENTRY: ranges 12
// FLAGS: -I$VERIF/harness/stubio -I$VERIF/harness/stubaxi -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
#include "safe.h"
#include "P39.cpp"
