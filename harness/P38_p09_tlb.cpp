// memory safety over the inputs of P09_tlb
// ENTRY: tlb_core 12
#include "safe.h"
#include "P09_tlb.cpp"
