// memory safety over the inputs of P31
// FLAGS: -I$VERIF/harness/stubmap
// ENTRY: device_reads 12
// ENTRY: device_stores 12
// ENTRY: device_time 8
// ENTRY: device_transfer 12
// ENTRY: device_port 12
#include "safe.h"
#include "P31.cpp"
