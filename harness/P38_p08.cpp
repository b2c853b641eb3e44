// memory safety over the inputs of P08
// ENTRY: dut_irq 2
// ENTRY: dut_lines
#include "safe.h"
#include "P08.cpp"
