// memory safety over the inputs of P30
// ENTRY: slots 8
// ENTRY: probes 8
// ENTRY: settled 8
// ENTRY: reads 8
// ENTRY: walks 8
// ENTRY: everyone 8
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
#include "safe.h"
#include "P30.cpp"
