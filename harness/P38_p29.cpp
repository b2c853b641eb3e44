// memory safety over the inputs of P29
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: queue 8
// ENTRY: pressure 8
#include "safe.h"
#include "P29.cpp"
