// memory safety over the inputs of P42
// FLAGS: -I$VERIF/harness/stubio -I$VERIF/harness/stubaxi -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: redirect
// ENTRY: retired 2
// ENTRY: translation 4
// ENTRY: status
#include "safe.h"
#include "P42.cpp"
