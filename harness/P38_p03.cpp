// memory safety over the inputs of P03
// ENTRY: dut_branch 8
// ENTRY: predecoder 2
#include "safe.h"
#include "P03.cpp"
