// memory safety over the inputs of P23
// ENTRY: group 16
#include "safe.h"
#include "P23.cpp"
