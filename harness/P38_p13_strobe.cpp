// memory safety over the inputs of P13_strobe
// ENTRY: strobe 16
#include "safe.h"
#include "P13_strobe.cpp"
