// memory safety over the inputs of P05
// ENTRY: dut_amo 11
#include "safe.h"
#include "P05.cpp"
