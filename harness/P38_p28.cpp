// memory safety over the inputs of P28
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: registers 8
// ENTRY: misses 8
// ENTRY: last_register 8
#include "safe.h"
#include "P28.cpp"
