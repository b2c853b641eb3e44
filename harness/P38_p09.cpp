// memory safety over the inputs of P09
// ENTRY: ref_walk 12
// ENTRY: ref_use 8
#include "safe.h"
#include "P09.cpp"
