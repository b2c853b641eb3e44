// memory safety over the inputs of P27
// FLAGS: -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: split 1
// ENTRY: policy 1
// ENTRY: arrays 8
// ENTRY: traffic 8
#include "safe.h"
#include "P27.cpp"
