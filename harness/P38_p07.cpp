// memory safety over the inputs of P07
// ENTRY: dut_trap 8
#include "safe.h"
#include "P07.cpp"
