// memory safety over the inputs of P19
// ENTRY: chain 8
// ENTRY: pair 8
// ENTRY: wake 8
// ENTRY: enter 4
#include "safe.h"
#include "P19.cpp"
