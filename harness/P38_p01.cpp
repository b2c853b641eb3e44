// memory safety over the inputs of P01
// ENTRY: dut_results 8
#include "safe.h"
#include "P01.cpp"
