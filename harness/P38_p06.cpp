// memory safety over the inputs of P06
// ENTRY: dut_csr 14
// ENTRY: dut_csr_squash
#include "safe.h"
#include "P06.cpp"
