// memory safety over the inputs of P13
// ENTRY: mem_rw 40
// FLAGS: -I$VERIF/harness/stubmap
// ENTRY: mem_bulk 12
#include "safe.h"
#include "P13.cpp"
